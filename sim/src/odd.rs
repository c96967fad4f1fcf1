//! Schemas and documents as organisations really name, order and grow them: names that differ only
//! in case or length or belong to another kind of thing, definitions in any order, and now and then
//! something much longer than usual. Applied to generated (valid) models; keeps them valid.
use crate::model::*;
use crate::tape::Tape;
use std::collections::{BTreeMap, BTreeSet};

type Map = BTreeMap<String, String>;

/// rename some of `old`, injectively, to names that none of `old` or `taken` has
fn names(t: &mut Tape, old: &[String], pool: &[&str], others: &[String], keep: &dyn Fn(&str) -> bool, taken: &dyn Fn(&str) -> bool) -> Map {
    let mut used: BTreeSet<String> = old.iter().cloned().collect();
    let mut m = Map::new();
    let rate = t.range(1, 4);
    for o in old {
        if keep(o) || m.contains_key(o) || !t.chance(rate, 4) {
            continue;
        }
        let n = match t.pick(8) {
            0 | 1 => (*t.choose(pool)).to_string(),
            2 => format!("{o}_"),
            3 => o.chars().map(|c| if c.is_ascii_uppercase() { c.to_ascii_lowercase() } else { c.to_ascii_uppercase() }).collect(),
            4 => format!("{o}{}", "x".repeat(*t.choose(&[8, 30, 70, 300]))),
            5 => {
                let k = t.range(1, 3);
                o[..o.len().min(k)].to_string()
            }
            6 if !others.is_empty() => t.choose(others).clone(),
            // another name with something behind it
            _ => format!("{}{}", t.choose(old), t.pick(3)),
        };
        if n.starts_with("__") || taken(&n) || !used.insert(n.clone()) {
            continue;
        }
        m.insert(o.clone(), n);
    }
    m
}
fn to(m: &Map, n: &mut String) {
    if let Some(x) = m.get(n.as_str()) {
        *n = x.clone();
    }
}
fn ty(m: &Map, x: &mut Ty) {
    match x {
        Ty::Named(n, _) => to(m, n),
        Ty::List(i, _) => ty(m, i),
    }
}

struct All {
    types: Map,
    fields: Map,
    args: Map,
    vals: Map,
    dirs: Map,
}
impl All {
    fn val(&self, v: &mut Val) {
        match v {
            Val::Enum(n) => to(&self.vals, n),
            Val::List(l) => l.iter_mut().for_each(|v| self.val(v)),
            Val::Obj(l) => l.iter_mut().for_each(|(k, v)| {
                to(&self.fields, k);
                self.val(v)
            }),
            _ => {}
        }
    }
    fn dirs(&self, d: &mut Dirs) {
        for d in d {
            if matches!(d.name.as_str(), "deprecated" | "specifiedBy" | "oneOf" | "skip" | "include") {
                continue;
            }
            to(&self.dirs, &mut d.name);
            for (n, v) in &mut d.args {
                to(&self.args, n);
                self.val(v)
            }
        }
    }
    fn invals(&self, l: &mut [InVal], m: &Map) {
        for v in l {
            to(m, &mut v.name);
            ty(&self.types, &mut v.ty);
            if let Some(d) = &mut v.default {
                self.val(d)
            }
            self.dirs(&mut v.dirs);
        }
    }
}

const TYPES: [&str; 29] = ["Query", "Mutation", "Subscription", "Ob", "ob0", "OB0", "O", "o", "_", "_0", "Type", "type", "query", "Query_", "input", "on", "true", "null", "int", "INT", "id", "Boolean_", "string", "Mutatio", "Mutation1", "Ob_0", "Ob00", "If", "enum"];
const FIELDS: [&str; 22] = ["A", "aa", "aA", "Aa", "a_", "_", "_a", "a0", "a00", "query", "schema", "true", "false", "null", "typename", "_typename", "edge", "Nodes", "If0", "Int", "implements", "skip"];
const ARGS: [&str; 16] = ["P", "pp", "pP", "_", "p_", "p0", "null", "true", "on", "First", "If", "fragment", "a", "x", "Int", "reason"];
const VALS: [&str; 16] = ["red", "Red", "RE", "REDD", "RED_", "_", "True", "NULL", "nil", "Int", "query", "enum", "a", "B", "GREEN0", "fragment"];
const DIRS: [&str; 12] = ["Dir0", "dir", "dir00", "d", "_", "Skip", "include_", "on", "directive", "a", "Int", "oneof"];

fn rename(t: &mut Tape, s: &mut Schema) {
    let mut tn: Vec<String> = s.types.iter().map(|x| x.name.clone()).collect();
    tn.dedup();
    let mut fnames = BTreeSet::new();
    let mut an = BTreeSet::new();
    let mut vn = BTreeSet::new();
    for x in &s.types {
        for f in x.fields() {
            fnames.insert(f.name.clone());
            an.extend(f.args.iter().map(|a| a.name.clone()));
        }
        fnames.extend(x.in_fields().iter().map(|f| f.name.clone()));
        vn.extend(x.enum_vals().iter().map(|v| v.name.clone()));
    }
    for d in &s.directives {
        an.extend(d.args.iter().map(|a| a.name.clone()));
    }
    let v = |s: BTreeSet<String>| s.into_iter().collect::<Vec<_>>();
    let (fnames, an, vn) = (v(fnames), v(an), v(vn));
    let dn: Vec<String> = s.directives.iter().map(|d| d.name.clone()).collect();
    let explicit = s.explicit;
    let roots: Vec<String> = [Some(&s.query), s.mutation.as_ref(), s.subscription.as_ref()].into_iter().flatten().cloned().collect();
    let root_name = |n: &str| matches!(n, "Query" | "Mutation" | "Subscription");
    let never = |_: &str| false;
    let conn = |n: &str| n.starts_with("conn") || matches!(n, "edges" | "nodes" | "node" | "pageInfo" | "cursor" | "total" | "hasNext");
    let m = All {
        types: names(t, &tn, &TYPES, &fnames, &|n| roots.iter().any(|r| r == n) && !explicit, &|n| is_builtin_scalar(n) || (root_name(n) && !explicit)),
        fields: names(t, &fnames, &FIELDS, &tn, &conn, &|n| conn(n)),
        args: names(t, &an, &ARGS, &fnames, &|n| n == "first" || n == "last", &|n| n == "first" || n == "last"),
        vals: names(t, &vn, &VALS, &tn, &never, &|n| matches!(n, "true" | "false" | "null")),
        dirs: names(t, &dn, &DIRS, &tn, &never, &|n| matches!(n, "deprecated" | "specifiedBy" | "oneOf" | "skip" | "include" | "cost")),
    };
    to(&m.types, &mut s.query);
    if let Some(x) = &mut s.mutation {
        to(&m.types, x)
    }
    if let Some(x) = &mut s.subscription {
        to(&m.types, x)
    }
    m.dirs(&mut s.dirs);
    for x in &mut s.types {
        to(&m.types, &mut x.name);
        m.dirs(&mut x.dirs);
        match &mut x.kind {
            Kind::Scalar => {}
            Kind::Enum(v) => v.iter_mut().for_each(|v| {
                to(&m.vals, &mut v.name);
                m.dirs(&mut v.dirs)
            }),
            Kind::Input(f) => m.invals(f, &m.fields),
            Kind::Union(u) => u.iter_mut().for_each(|n| to(&m.types, n)),
            Kind::Interface(i, f) | Kind::Object(i, f) => {
                i.iter_mut().for_each(|n| to(&m.types, n));
                for f in f {
                    to(&m.fields, &mut f.name);
                    ty(&m.types, &mut f.ty);
                    m.invals(&mut f.args, &m.args);
                    m.dirs(&mut f.dirs);
                }
            }
        }
    }
    for d in &mut s.directives {
        to(&m.dirs, &mut d.name);
        m.invals(&mut d.args, &m.args);
    }
}

fn deep(t: &mut Tape, b: &str) -> Ty {
    let mut x = Ty::Named(b.into(), t.chance(1, 2));
    for _ in 0..t.range(0, 5) {
        x = Ty::List(Box::new(x), t.chance(1, 2));
    }
    x
}

/// one thing grows far beyond the usual size
fn swell(t: &mut Tape, s: &mut Schema) {
    let k = *t.choose(&[6, 9, 13, 17, 26, 33, 40, 70]);
    let objs: Vec<usize> = (0..s.types.len()).filter(|i| s.types[*i].is_object()).collect();
    if objs.is_empty() {
        return;
    }
    let o = objs[t.pick(objs.len())];
    let inv = |i: usize, ty: Ty| InVal { name: format!("w{i}"), desc: None, ty, default: None, dirs: vec![] };
    let leafs: Vec<String> = s.types.iter().filter(|x| x.is_enum() || x.is_scalar()).map(|x| x.name.clone()).chain(BUILTIN_SCALARS.iter().map(|x| x.to_string())).collect();
    match t.pick(6) {
        0 => {
            let bases: Vec<String> = s.types.iter().filter(|x| x.is_composite()).map(|x| x.name.clone()).chain(leafs.iter().cloned()).collect();
            let new: Vec<FieldDef> = (0..k)
                .map(|i| {
                    let b = t.choose(&bases).clone();
                    FieldDef { name: format!("w{i}"), desc: None, args: vec![], ty: deep(t, &b), dirs: vec![] }
                })
                .collect();
            if let Some(f) = s.types[o].fields_mut() {
                f.extend(new);
            }
        }
        1 => {
            let new: Vec<InVal> = (0..k).map(|i| { let b = t.choose(&leafs).clone(); inv(i, deep(t, &b).with_req(false)) }).collect();
            if let Some(f) = s.types[o].fields_mut() {
                let j = t.pick(f.len().max(1));
                if let Some(f) = f.get_mut(j) {
                    f.args.extend(new);
                }
            }
        }
        2 => {
            let l: Vec<usize> = (0..s.types.len()).filter(|i| s.types[*i].is_enum()).collect();
            if let Some(i) = (!l.is_empty()).then(|| l[t.pick(l.len())]) {
                if let Kind::Enum(v) = &mut s.types[i].kind {
                    v.extend((0..k).map(|i| EnumVal { name: format!("W{i}"), desc: None, dirs: vec![] }));
                }
            }
        }
        3 => {
            let l: Vec<usize> = (0..s.types.len()).filter(|i| s.types[*i].is_input()).collect();
            if let Some(i) = (!l.is_empty()).then(|| l[t.pick(l.len())]) {
                let new: Vec<InVal> = (0..k).map(|i| { let b = t.choose(&leafs).clone(); inv(i, deep(t, &b).with_req(false)) }).collect();
                if let Kind::Input(f) = &mut s.types[i].kind {
                    f.extend(new);
                }
            }
        }
        4 => {
            // many objects, which are members of every union and implement some interface
            let fields = s.types[o].fields().to_vec();
            let ifaces = s.types[o].ifaces().to_vec();
            for i in 0..k.min(20) {
                let name = format!("Wo{i}");
                for x in &mut s.types {
                    if let Kind::Union(m) = &mut x.kind {
                        m.push(name.clone());
                    }
                }
                s.types.push(TypeDef { name, desc: None, dirs: vec![], kind: Kind::Object(ifaces.clone(), fields.clone()) });
            }
        }
        _ => {
            for d in &mut s.directives {
                if d.args.iter().all(|a| !a.required()) {
                    d.args.extend((0..k.min(13)).map(|i| inv(i, Ty::named("Int"))));
                }
            }
        }
    }
}

pub fn schema(t: &mut Tape, s: &mut Schema) {
    if t.chance(1, 16) {
        swell(t, s);
    }
    if t.chance(1, 3) {
        t.shuffle(&mut s.types);
    }
    if t.chance(1, 4) {
        rename(t, s);
    }
}

// ------------------------------------------------------------------ documents

const VARS: [&str; 14] = ["V0", "v", "vv", "v00", "_", "on", "true", "null", "query", "F0", "Op0", "a", "p", "if"];
const FRAGS: [&str; 14] = ["f0", "F", "FF", "F00", "_", "true", "query", "fragment", "v0", "Op0", "a", "On", "Query", "Int"];
const OPS: [&str; 12] = ["op0", "Op", "Op00", "_", "on", "query", "F0", "v0", "a", "Query", "null", "subscription"];

struct Doc_ {
    vars: Map,
    frags: Map,
    ops: Map,
}
impl Doc_ {
    fn val(&self, v: &mut Val) {
        match v {
            Val::Var(n) => to(&self.vars, n),
            Val::List(l) => l.iter_mut().for_each(|v| self.val(v)),
            Val::Obj(l) => l.iter_mut().for_each(|x| self.val(&mut x.1)),
            _ => {}
        }
    }
    fn dirs(&self, d: &mut Dirs) {
        d.iter_mut().for_each(|d| d.args.iter_mut().for_each(|a| self.val(&mut a.1)))
    }
    fn sels(&self, s: &mut [Sel]) {
        for x in s {
            match x {
                Sel::Field(f) => {
                    f.args.iter_mut().for_each(|a| self.val(&mut a.1));
                    self.dirs(&mut f.dirs);
                    self.sels(&mut f.sels)
                }
                Sel::Spread(n, d) => {
                    to(&self.frags, n);
                    self.dirs(d)
                }
                Sel::Inline(_, d, x) => {
                    self.dirs(d);
                    self.sels(x)
                }
            }
        }
    }
}

fn rename_doc(t: &mut Tape, d: &mut Doc) {
    let mut v = BTreeSet::new();
    let (mut f, mut o) = (vec![], vec![]);
    for x in &d.defs {
        match x {
            Def::Op(x) => {
                v.extend(x.vars.iter().map(|v| v.name.clone()));
                o.extend(x.name.clone());
            }
            Def::Frag(x) => f.push(x.name.clone()),
        }
    }
    let v: Vec<String> = v.into_iter().collect();
    let no = |_: &str| false;
    let m = Doc_ { vars: names(t, &v, &VARS, &f, &no, &no), frags: names(t, &f, &FRAGS, &o, &no, &|n| n == "on"), ops: names(t, &o, &OPS, &f, &no, &no) };
    for x in &mut d.defs {
        match x {
            Def::Op(x) => {
                if let Some(n) = &mut x.name {
                    to(&m.ops, n)
                }
                x.vars.iter_mut().for_each(|v| to(&m.vars, &mut v.name));
                m.dirs(&mut x.dirs);
                m.sels(&mut x.sels)
            }
            Def::Frag(x) => {
                to(&m.frags, &mut x.name);
                m.dirs(&mut x.dirs);
                m.sels(&mut x.sels)
            }
        }
    }
}

pub fn doc(t: &mut Tape, d: &mut Doc) {
    if t.chance(1, 4) {
        rename_doc(t, d);
    }
}

/// more selections of what is there, under other keys
pub fn wide(t: &mut Tape, sels: &mut Vec<Sel>) {
    let k = *t.choose(&[5, 9, 13, 17, 26, 33, 40]);
    let n = sels.len();
    for i in 0..k {
        let mut x = if n > 0 && t.chance(1, 2) { sels[t.pick(n)].clone() } else { crate::mutate::field("__typename") };
        if !matches!(x, Sel::Field(_)) {
            x = crate::mutate::field("__typename");
        }
        if let Sel::Field(f) = &mut x {
            f.alias = Some(format!("wide{i}"));
            if !f.sels.is_empty() {
                f.sels.truncate(1);
            }
        }
        sels.push(x);
    }
}
