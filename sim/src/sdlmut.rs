//! Schema documents as deployments really ship them: damaged by bad merges and half-finished edits;
//! and the reference judgement of what is wrong with one.
use crate::model::*;
use crate::refparse::Sdl;
use crate::tape::Tape;

pub fn sdl_of(s: &Schema) -> Sdl {
    let mut schemas = vec![];
    if s.explicit {
        let mut roots = vec![("query".to_string(), s.query.clone())];
        for (k, r) in [("mutation", &s.mutation), ("subscription", &s.subscription)] {
            if let Some(r) = r {
                roots.push((k.to_string(), r.clone()));
            }
        }
        schemas.push((s.desc.clone(), s.dirs.clone(), roots));
    }
    Sdl { schemas, types: s.types.clone(), directives: s.directives.clone() }
}

/// render, definitions in a random order when `t` is given
pub fn render(d: &Sdl, t: Option<&mut Tape>) -> String {
    let mut parts: Vec<String> = vec![];
    for (desc, dirs, roots) in &d.schemas {
        let mut o = Out { toks: vec![], t: None };
        o.desc(desc);
        o.p("schema");
        o.dirs(dirs);
        o.p("{");
        for (k, n) in roots {
            o.p(k);
            o.p(":");
            o.p(n);
        }
        o.p("}");
        parts.push(pretty(&o.toks));
    }
    for x in &d.directives {
        let mut o = Out { toks: vec![], t: None };
        o.dir_def(x);
        parts.push(pretty(&o.toks));
    }
    for x in &d.types {
        let mut o = Out { toks: vec![], t: None };
        o.type_def(x);
        parts.push(pretty(&o.toks));
    }
    if let Some(t) = t {
        t.shuffle(&mut parts);
    }
    parts.join("\n")
}

fn any_ref<'d>(t: &mut Tape, d: &'d mut Sdl) -> Option<&'d mut Ty> {
    let mut v: Vec<&mut Ty> = vec![];
    for x in &mut d.types {
        match &mut x.kind {
            Kind::Object(_, f) | Kind::Interface(_, f) => {
                for f in f {
                    for a in &mut f.args {
                        v.push(&mut a.ty);
                    }
                    v.push(&mut f.ty);
                }
            }
            Kind::Input(f) => v.extend(f.iter_mut().map(|f| &mut f.ty)),
            _ => {}
        }
    }
    for x in &mut d.directives {
        v.extend(x.args.iter_mut().map(|f| &mut f.ty));
    }
    if v.is_empty() {
        return None;
    }
    let i = t.pick(v.len());
    Some(v.remove(i))
}

fn any_dirs<'d>(t: &mut Tape, d: &'d mut Sdl) -> Option<&'d mut Dirs> {
    let mut v: Vec<&mut Dirs> = vec![];
    for (_, dirs, _) in &mut d.schemas {
        v.push(dirs);
    }
    for x in &mut d.types {
        v.push(&mut x.dirs);
        match &mut x.kind {
            Kind::Object(_, f) | Kind::Interface(_, f) => {
                for f in f {
                    for a in &mut f.args {
                        v.push(&mut a.dirs);
                    }
                    v.push(&mut f.dirs);
                }
            }
            Kind::Input(f) => v.extend(f.iter_mut().map(|f| &mut f.dirs)),
            Kind::Enum(e) => v.extend(e.iter_mut().map(|e| &mut e.dirs)),
            _ => {}
        }
    }
    for x in &mut d.directives {
        v.extend(x.args.iter_mut().map(|f| &mut f.dirs));
    }
    if v.is_empty() {
        return None;
    }
    let i = t.pick(v.len());
    Some(v.remove(i))
}

fn pick_mut<'a, T>(t: &mut Tape, v: &'a mut [T], ok: impl Fn(&T) -> bool) -> Option<&'a mut T> {
    let ix: Vec<usize> = (0..v.len()).filter(|i| ok(&v[*i])).collect();
    if ix.is_empty() {
        return None;
    }
    let i = ix[t.pick(ix.len())];
    Some(&mut v[i])
}

/// one defect
pub fn damage(t: &mut Tape, d: &mut Sdl) -> &'static str {
    let names: Vec<String> = d.types.iter().map(|x| x.name.clone()).collect();
    let some = |t: &mut Tape| if names.is_empty() { "Gone".to_string() } else { t.choose(&names).clone() };
    match t.pick(24) {
        0 => {
            if let Some(x) = pick_mut(t, &mut d.types, |_| true) {
                let x = x.clone();
                d.types.push(x);
            }
            "type twice"
        }
        1 => {
            let n = if t.chance(1, 3) { (*t.choose(&["Int", "ID", "__Type", "String", "__Schema", "Boolean", "Query"])).to_string() } else { some(t) };
            if let Some(x) = pick_mut(t, &mut d.types, |_| true) {
                x.name = n;
            }
            "type renamed onto another"
        }
        2 => {
            if d.directives.is_empty() || t.chance(1, 3) {
                let n = *t.choose(&["skip", "deprecated", "fresh"]);
                d.directives.push(DirDef { name: n.into(), desc: None, args: vec![], repeatable: false, locs: vec!["FIELD".into()] });
                "directive added"
            } else {
                let x = t.choose(&d.directives).clone();
                d.directives.push(x);
                "directive twice"
            }
        }
        3 | 4 => {
            if let Some(r) = any_ref(t, d) {
                *r = r.rebase(if t.chance(1, 2) { "Gone" } else { "Lost" });
            }
            "dangling reference"
        }
        5 | 6 => {
            let n = some(t);
            if let Some(r) = any_ref(t, d) {
                *r = r.rebase(&n);
            }
            "reference to another type"
        }
        7 => {
            let n = if t.chance(1, 3) { "Gone".to_string() } else { some(t) };
            if let Some(TypeDef { kind: Kind::Union(m), .. }) = pick_mut(t, &mut d.types, |x| x.is_union()) {
                m.push(n);
            }
            "union member"
        }
        8 => {
            let n = if t.chance(1, 3) { "Gone".to_string() } else { some(t) };
            if let Some(TypeDef { kind: Kind::Object(m, _) | Kind::Interface(m, _), .. }) = pick_mut(t, &mut d.types, |x| x.is_object() || x.is_interface()) {
                m.push(n);
            }
            "interface"
        }
        9 | 10 => {
            if let Some(ds) = any_dirs(t, d) {
                ds.push(Dir { name: (*t.choose(&["gone", "lost", "skip"])).into(), args: vec![] });
            }
            "unknown directive"
        }
        11 => {
            let q = some(t);
            d.schemas.push((None, vec![], vec![("query".into(), q)]));
            "schema block added"
        }
        12 => {
            let q = some(t);
            if let Some(s) = d.schemas.last_mut() {
                s.2.push(((*t.choose(&["query", "mutation", "subscription"])).into(), q));
            } else {
                d.schemas.push((None, vec![], vec![((*t.choose(&["query", "mutation"])).into(), q)]));
            }
            "root added"
        }
        13 => {
            if let Some(s) = d.schemas.last_mut() {
                if let Some(r) = pick_mut(t, &mut s.2, |_| true) {
                    r.1 = "Gone".into();
                }
            }
            "root dangling"
        }
        14 => {
            if let Some(s) = d.schemas.last_mut() {
                if s.2.len() > 1 {
                    let i = t.pick(s.2.len());
                    s.2.remove(i);
                }
            }
            "root lost"
        }
        15 | 16 => {
            if !d.types.is_empty() {
                let i = t.pick(d.types.len());
                d.types.remove(i);
            }
            "type lost"
        }
        17 => {
            if !d.directives.is_empty() {
                let i = t.pick(d.directives.len());
                d.directives.remove(i);
            }
            "directive lost"
        }
        18 => {
            if let Some(TypeDef { kind: Kind::Enum(v), .. }) = pick_mut(t, &mut d.types, |x| x.is_enum()) {
                let x = t.choose(v).clone();
                v.push(x.clone());
                if t.chance(1, 3) {
                    v.push(x);
                }
            }
            "enum value twice"
        }
        19 => {
            if let Some(TypeDef { kind: Kind::Input(v), .. }) = pick_mut(t, &mut d.types, |x| x.is_input()) {
                let x = t.choose(v).clone();
                v.push(x.clone());
                if t.chance(1, 3) {
                    v.push(x);
                }
            }
            "input field twice"
        }
        20 | 21 => {
            let ins: Vec<String> = d.types.iter().filter(|x| x.is_input()).map(|x| x.name.clone()).collect();
            if t.chance(1, 3) {
                // a long ring, with a way into it and dead ends beside it
                let n = t.range(1, 6);
                let lead = t.pick(3);
                let field = |f: String, ty: Ty| InVal { name: f, desc: None, ty, default: None, dirs: vec![] };
                let mut new: Vec<TypeDef> = vec![];
                for i in 0..n + lead {
                    let to = if i + 1 < n { i + 1 } else if i + 1 == n { 0 } else if t.chance(1, 2) { t.pick(n) } else { i - 1 };
                    let mut fs = vec![field("on".into(), Ty::Named(format!("Rg{to}"), true))];
                    for k in 0..t.pick(3) {
                        let (base, req) = match t.pick(4) {
                            0 if !ins.is_empty() => (t.choose(&ins).clone(), true),
                            1 => (format!("Rg{}", t.pick(n + lead)), false),
                            2 => (format!("Rg{}", t.pick(n + lead)), true),
                            _ => ("Int".to_string(), true),
                        };
                        let at = t.pick(fs.len() + 1);
                        let ty = if t.chance(1, 5) { Ty::List(Box::new(Ty::Named(base, true)), true) } else { Ty::Named(base, req) };
                        fs.insert(at, field(format!("f{k}"), ty));
                    }
                    new.push(TypeDef { name: format!("Rg{i}"), desc: None, dirs: vec![], kind: Kind::Input(fs) });
                }
                if t.chance(1, 2) {
                    // not closed after all
                    if let Kind::Input(fs) = &mut new[n - 1].kind {
                        for f in fs {
                            f.ty = Ty::named("Int");
                        }
                    }
                }
                new.retain(|x| d.types.iter().all(|y| y.name != x.name));
                for x in new {
                    let at = t.pick(d.types.len() + 1);
                    d.types.insert(at, x);
                }
            } else if !ins.is_empty() {
                for _ in 0..t.range(1, 3) {
                    let to = t.choose(&ins).clone();
                    let req = t.chance(3, 4);
                    let list = t.chance(1, 5);
                    if let Some(TypeDef { kind: Kind::Input(v), .. }) = pick_mut(t, &mut d.types, |x| x.is_input()) {
                        if let Some(f) = pick_mut(t, v, |_| true) {
                            f.ty = if list { Ty::List(Box::new(Ty::Named(to, req)), true) } else { Ty::Named(to, req) };
                            f.default = None;
                        }
                    }
                }
            }
            "input objects closed into a ring"
        }
        22 => {
            if let Some(x) = pick_mut(t, &mut d.types, |_| true) {
                x.kind = match t.pick(4) {
                    0 => Kind::Scalar,
                    1 => Kind::Enum(vec![EnumVal { name: "A".into(), desc: None, dirs: vec![] }]),
                    2 => Kind::Input(vec![InVal { name: "a".into(), desc: None, ty: Ty::named("Int"), default: None, dirs: vec![] }]),
                    _ => Kind::Union(vec!["Query".into()]),
                };
            }
            "type of another kind"
        }
        _ => {
            d.schemas.clear();
            "schema block lost"
        }
    }
}

pub const BUILTIN_DIRS: [&str; 5] = ["deprecated", "include", "oneOf", "skip", "specifiedBy"];
pub const INTRO: [&str; 8] = ["__Schema", "__Type", "__Field", "__InputValue", "__EnumValue", "__Directive", "__TypeKind", "__DirectiveLocation"];

/// What the registry must refuse: (class, name), sorted. Empty means the document is a schema.
pub fn judge(d: &Sdl) -> Vec<(&'static str, String)> {
    let mut e: Vec<(&'static str, String)> = vec![];
    // names
    let mut seen: Vec<&str> = INTRO.to_vec();
    let mut first: Vec<&TypeDef> = vec![];
    let mut dup: Vec<&str> = vec![];
    for t in &d.types {
        if seen.contains(&t.name.as_str()) {
            if !dup.contains(&t.name.as_str()) {
                dup.push(&t.name);
            }
        } else {
            seen.push(&t.name);
            first.push(t);
        }
    }
    // a builtin scalar can be replaced by a scalar only
    let clash = |n: &str| is_builtin_scalar(n) && !d.types.iter().any(|t| t.name == n && t.is_scalar());
    for t in &first {
        if clash(&t.name) && !dup.contains(&t.name.as_str()) {
            dup.push(&t.name);
        }
    }
    e.extend(dup.iter().map(|n| (if INTRO.contains(n) || clash(n) { "builtin type" } else { "type twice" }, n.to_string())));
    let mut dseen: Vec<&str> = vec![];
    let mut dfirst: Vec<&DirDef> = vec![];
    let mut ddup: Vec<&str> = vec![];
    for t in &d.directives {
        if dseen.contains(&t.name.as_str()) {
            if !ddup.contains(&t.name.as_str()) {
                ddup.push(&t.name);
            }
        } else {
            dseen.push(&t.name);
            dfirst.push(t);
        }
    }
    e.extend(ddup.iter().map(|n| ("directive twice", n.to_string())));
    // references
    let kind = |n: &str| -> Option<&'static str> {
        if let Some(t) = first.iter().find(|t| t.name == n) {
            return Some(t.kind_name());
        }
        if INTRO.contains(&n) {
            return Some(if n == "__TypeKind" || n == "__DirectiveLocation" { "ENUM" } else { "OBJECT" });
        }
        is_builtin_scalar(n).then_some("SCALAR")
    };
    let dirs = |ds: &Dirs, e: &mut Vec<(&'static str, String)>| {
        for x in ds {
            if !dseen.contains(&x.name.as_str()) && !BUILTIN_DIRS.contains(&x.name.as_str()) {
                e.push(("no directive", x.name.clone()));
            }
        }
    };
    let ins = |v: &[InVal], e: &mut Vec<(&'static str, String)>| {
        for f in v {
            match kind(f.ty.base()) {
                None => e.push(("no type", f.ty.base().into())),
                Some("SCALAR" | "ENUM" | "INPUT_OBJECT") => {}
                Some(_) => e.push(("not input", f.ty.base().into())),
            }
            dirs(&f.dirs, e);
        }
    };
    for t in &first {
        dirs(&t.dirs, &mut e);
        match &t.kind {
            Kind::Object(i, fs) | Kind::Interface(i, fs) => {
                for n in i {
                    match kind(n) {
                        None => e.push(("no type", n.clone())),
                        Some("INTERFACE") => {}
                        Some(_) => e.push(("not interface", n.clone())),
                    }
                }
                for f in fs {
                    match kind(f.ty.base()) {
                        None => e.push(("no type", f.ty.base().into())),
                        Some("INPUT_OBJECT") => e.push(("not output", f.ty.base().into())),
                        Some(_) => {}
                    }
                    ins(&f.args, &mut e);
                    dirs(&f.dirs, &mut e);
                }
            }
            Kind::Input(v) => ins(v, &mut e),
            Kind::Enum(v) => v.iter().for_each(|v| dirs(&v.dirs, &mut e)),
            Kind::Union(m) => {
                for n in m {
                    match kind(n) {
                        None => e.push(("no type", n.clone())),
                        Some("OBJECT") => {}
                        Some(_) => e.push(("not object", n.clone())),
                    }
                }
            }
            Kind::Scalar => {}
        }
    }
    for x in &dfirst {
        ins(&x.args, &mut e);
    }
    for s in &d.schemas {
        dirs(&s.1, &mut e);
    }
    if !e.is_empty() {
        e.sort();
        return e;
    }
    // roots
    match d.schemas.as_slice() {
        [] => {
            let mut have = vec![];
            for n in ["Query", "Mutation", "Subscription"] {
                match kind(n) {
                    None => {}
                    Some("OBJECT") => have.push(n),
                    Some(_) => e.push(("not object", n.into())),
                }
            }
            if e.is_empty() && !have.contains(&"Query") {
                e.push((if have.is_empty() { "no schema" } else { "no query" }, String::new()));
            }
        }
        [(_, _, roots)] => {
            for k in ["query", "mutation", "subscription"] {
                let r: Vec<&String> = roots.iter().filter(|r| r.0 == k).map(|r| &r.1).collect();
                match r.as_slice() {
                    [] => {}
                    [n] => match kind(n) {
                        None => e.push(("no type", n.to_string())),
                        Some("OBJECT") => {}
                        Some(_) => e.push(("not object", n.to_string())),
                    },
                    _ => e.push(("root twice", k.into())),
                }
            }
            if e.is_empty() && !roots.iter().any(|r| r.0 == "query") {
                e.push(("no query", String::new()));
            }
        }
        _ => e.push(("schema twice", String::new())),
    }
    e.sort();
    e
}

/// what the definition rules must report about an admitted schema
pub fn judge_rules(d: &Sdl) -> Vec<(&'static str, String)> {
    let mut e = vec![];
    for t in &d.types {
        let mut ns: Vec<&str> = match &t.kind {
            Kind::Enum(v) => v.iter().map(|x| x.name.as_str()).collect(),
            Kind::Input(v) => v.iter().map(|x| x.name.as_str()).collect(),
            _ => continue,
        };
        let k = if t.is_enum() { "enum value twice" } else { "input field twice" };
        ns.sort();
        let mut u = ns.clone();
        u.dedup();
        for n in u {
            if ns.iter().filter(|x| **x == n).count() > 1 {
                e.push((k, n.to_string()));
            }
        }
    }
    let next = |n: &str| -> Vec<&str> { d.types.iter().find(|t| t.name == n).map(|t| t.in_fields()).unwrap_or(&[]).iter().filter_map(|f| if let Ty::Named(b, true) = &f.ty { Some(b.as_str()) } else { None }).collect() };
    for t in d.types.iter().filter(|t| t.is_input()) {
        let mut todo = next(&t.name);
        let mut seen: Vec<&str> = vec![];
        while let Some(x) = todo.pop() {
            if seen.contains(&x) {
                continue;
            }
            seen.push(x);
            todo.extend(next(x));
        }
        if seen.contains(&t.name.as_str()) {
            e.push(("ring", t.name.clone()));
        }
    }
    e.sort();
    e
}

/// (class, name) of a message of the registry
pub fn class_of(m: &str) -> (&'static str, String) {
    let name = m.split('`').nth(1).unwrap_or("").trim_start_matches('@').to_string();
    let k = if m.starts_with("Cannot redefine builtin type ") {
        return ("builtin type", m.rsplit(' ').next().unwrap_or("").to_string());
    } else if m.starts_with("Multiple type definitions") {
        "type twice"
    } else if m.starts_with("Multiple directive definitions") {
        "directive twice"
    } else if m.starts_with("Multiple root operation") {
        "root twice"
    } else if m.starts_with("Multiple schema definitions") {
        "schema twice"
    } else if m.starts_with("Multiple enum value") {
        "enum value twice"
    } else if m.starts_with("Multiple input value") {
        "input field twice"
    } else if m.starts_with("Input object type definition") {
        "ring"
    } else if m.starts_with("Referenced directive") {
        "no directive"
    } else if m.contains("does not contain a query") || m.contains("missing query") {
        "no query"
    } else if m.starts_with("Document does not contain a schema") {
        "no schema"
    } else if m.ends_with("does not exist") {
        "no type"
    } else if m.ends_with("not an input type") {
        "not input"
    } else if m.ends_with("not an output type") {
        "not output"
    } else if m.ends_with("not an interface") {
        "not interface"
    } else if m.ends_with("not an object") {
        "not object"
    } else {
        "other"
    };
    (k, name)
}
