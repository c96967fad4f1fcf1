//! Schema evolution: one team's next version of a schema, always a well-formed one.
use crate::gen::*;
use crate::model::*;
use crate::refparse::LOCATIONS;
use crate::refval::val_ok;
use crate::sdlmut::{judge, judge_rules, sdl_of};
use crate::tape::Tape;

/// Is `a` allowed as the type of a field that implements one of type `b`?
fn covariant(s: &Schema, a: &Ty, b: &Ty) -> bool {
    if b.required() {
        return a.required() && covariant(s, &a.with_req(false), &b.with_req(false));
    }
    match (a, b) {
        (Ty::List(x, _), Ty::List(y, _)) => covariant(s, x, y),
        (Ty::Named(x, _), Ty::Named(y, _)) => {
            x == y
                || match s.ty(y).map(|t| &t.kind) {
                    Some(Kind::Union(m)) => m.contains(x),
                    Some(Kind::Interface(..)) => s.ty(x).map(|t| t.ifaces().contains(y)).unwrap_or(false),
                    _ => false,
                }
        }
        _ => false,
    }
}

fn conform_once(s: &mut Schema) -> bool {
    let snap = s.clone();
    let mut changed = false;
    for td in &mut s.types {
        let list = td.ifaces().to_vec();
        // interfaces of interfaces
        let mut all = list.clone();
        for i in &list {
            if let Some(it) = snap.ty(i) {
                for j in it.ifaces() {
                    if !all.contains(j) && *j != td.name {
                        all.push(j.clone());
                    }
                }
            }
        }
        if all != list {
            changed = true;
            match &mut td.kind {
                Kind::Object(i, _) | Kind::Interface(i, _) => *i = all.clone(),
                _ => {}
            }
        }
        let Some(fields) = td.fields_mut() else { continue };
        for i in &all {
            let Some(it) = snap.ty(i) else { continue };
            for f in it.fields() {
                match fields.iter_mut().find(|x| x.name == f.name) {
                    None => {
                        fields.push(f.clone());
                        changed = true;
                    }
                    Some(x) => {
                        if !covariant(&snap, &x.ty, &f.ty) {
                            x.ty = f.ty.clone();
                            changed = true;
                        }
                        for a in &f.args {
                            match x.args.iter_mut().find(|y| y.name == a.name) {
                                None => {
                                    x.args.push(a.clone());
                                    changed = true;
                                }
                                Some(y) if y.ty != a.ty => {
                                    y.ty = a.ty.clone();
                                    y.default = None;
                                    changed = true;
                                }
                                _ => {}
                            }
                        }
                        for y in &mut x.args {
                            if !f.args.iter().any(|a| a.name == y.name) && y.required() {
                                y.ty = y.ty.with_req(false);
                                changed = true;
                            }
                        }
                    }
                }
            }
        }
    }
    changed
}

/// Drop what no longer resolves, and restore interface conformity.
fn repair(s: &mut Schema) {
    for _ in 0..6 {
        let snap = s.clone();
        let is_in = |n: &str| snap.is_input_ty(n);
        let is_out = |n: &str| snap.is_leaf(n) || snap.is_composite(n);
        let fix_dirs = |d: &mut Dirs| d.retain(|d| crate::refval::dir_def(&snap, &d.name).is_some());
        let fix_in = |v: &mut InVal| {
            fix_dirs(&mut v.dirs);
            if v.default.as_ref().is_some_and(|d| !val_ok(&snap, &v.ty, d, true)) {
                v.default = None;
            }
        };
        fix_dirs(&mut s.dirs);
        for td in &mut s.types {
            fix_dirs(&mut td.dirs);
            if !matches!(td.kind, Kind::Input(_)) {
                td.dirs.retain(|d| d.name != "oneOf");
            }
            let name = td.name.clone();
            let one_of = td.one_of();
            match &mut td.kind {
                Kind::Object(i, f) | Kind::Interface(i, f) => {
                    i.retain(|i| *i != name && snap.ty(i).is_some_and(|t| t.is_interface()));
                    f.retain(|f| is_out(f.ty.base()));
                    for f in f.iter_mut() {
                        fix_dirs(&mut f.dirs);
                        f.args.retain(|a| is_in(a.ty.base()));
                        f.args.iter_mut().for_each(fix_in);
                    }
                    if f.is_empty() {
                        f.push(FieldDef { name: "a".into(), desc: None, args: vec![], ty: Ty::named("Int"), dirs: vec![] });
                    }
                }
                Kind::Input(f) => {
                    f.retain(|a| is_in(a.ty.base()));
                    f.iter_mut().for_each(fix_in);
                    if one_of {
                        for f in f.iter_mut() {
                            f.ty = f.ty.with_req(false);
                            f.default = None;
                        }
                    }
                    if f.is_empty() {
                        f.push(InVal { name: "p".into(), desc: None, ty: Ty::named("Int"), default: None, dirs: vec![] });
                    }
                }
                Kind::Union(m) => {
                    m.retain(|m| snap.ty(m).is_some_and(|t| t.is_object()));
                    if m.is_empty() {
                        m.push(snap.query.clone());
                    }
                }
                Kind::Enum(v) => {
                    if v.is_empty() {
                        v.push(EnumVal { name: "RED".into(), desc: None, dirs: vec![] });
                    }
                    v.iter_mut().for_each(|v| fix_dirs(&mut v.dirs));
                }
                Kind::Scalar => {}
            }
        }
        for d in &mut s.directives {
            d.args.retain(|a| is_in(a.ty.base()));
            d.args.iter_mut().for_each(fix_in);
        }
        let snap = s.clone();
        let ok = |n: &Option<String>| n.as_ref().filter(|n| snap.ty(n).is_some_and(|t| t.is_object())).cloned();
        if s.explicit {
            s.mutation = ok(&s.mutation);
            s.subscription = ok(&s.subscription);
        } else {
            s.mutation = ok(&Some("Mutation".into()));
            s.subscription = ok(&Some("Subscription".into()));
        }
        s.types.iter_mut().for_each(|t| {
            if let Kind::Input(f) = &mut t.kind {
                f.dedup_by(|a, b| a.name == b.name);
            }
        });
        if !conform_once(s) {
            return;
        }
    }
}

fn well_formed(s: &Schema) -> bool {
    let mut c = s.clone();
    if !s.ty(&s.query).is_some_and(|t| t.is_object()) || conform_once(&mut c) {
        return false;
    }
    // every input type has a value
    if s.types.iter().any(|t| t.is_input() && value_rank(s, Ty::Named(t.name.clone(), true), 8) >= 8) {
        return false;
    }
    let d = sdl_of(s);
    judge(&d).is_empty() && judge_rules(&d).is_empty() && roots_as_printed(s)
}

/// an implicit schema definition must name the same roots
fn roots_as_printed(s: &Schema) -> bool {
    if s.explicit {
        return true;
    }
    let has = |n: &str| s.ty(n).map(|_| n.to_string());
    has("Query").as_ref() == Some(&s.query) && has("Mutation") == s.mutation && has("Subscription") == s.subscription
}

fn fresh(t: &mut Tape, taken: &dyn Fn(&str) -> bool, pool: &[&str]) -> String {
    for _ in 0..4 {
        let n = *t.choose(pool);
        if !taken(n) {
            return n.to_string();
        }
    }
    (0..).map(|i| format!("z{i}")).find(|n| !taken(n)).unwrap()
}

fn in_base(t: &mut Tape, s: &Schema) -> String {
    let own: Vec<&String> = s.types.iter().filter(|x| s.is_input_ty(&x.name)).map(|x| &x.name).collect();
    if own.is_empty() || t.chance(1, 2) {
        BUILTIN_SCALARS[t.pick(5)].into()
    } else {
        (*t.choose(&own)).clone()
    }
}
fn out_base(t: &mut Tape, s: &Schema) -> String {
    let own: Vec<&String> = s.types.iter().filter(|x| !x.is_input()).map(|x| &x.name).collect();
    if own.is_empty() || t.chance(1, 3) {
        BUILTIN_SCALARS[t.pick(5)].into()
    } else {
        (*t.choose(&own)).clone()
    }
}
fn new_in(t: &mut Tape, s: &Schema, name: String) -> InVal {
    let b = in_base(t, s);
    let ty = wrap_ty(t, &b, true);
    let default = if t.chance(1, 3) { Some(const_val(t, s, &ty, 1, false)) } else { None };
    InVal { name, desc: None, ty, default, dirs: vec![] }
}
fn new_field(t: &mut Tape, s: &Schema, name: String) -> FieldDef {
    let b = out_base(t, s);
    let ty = wrap_ty(t, &b, true);
    let mut args: Vec<InVal> = vec![];
    for _ in 0..t.pick(3) {
        let n = fresh(t, &|n| args.iter().any(|a| a.name == n), &ARG_NAMES);
        let a = new_in(t, s, n);
        args.push(a);
    }
    FieldDef { name, desc: None, args, ty, dirs: vec![] }
}
fn new_desc(t: &mut Tape, d: &mut Option<String>) -> bool {
    let n = match t.pick(4) {
        0 => None,
        1 => Some(String::new()),
        k => Some(["one", "two"][k - 2].to_string()),
    };
    std::mem::replace(d, n.clone()) != n
}
/// a change of nullability, wrapping or base
fn retype(t: &mut Tape, ty: &Ty, base: Option<String>) -> Ty {
    fn flip(t: &mut Tape, ty: &Ty) -> Ty {
        match ty {
            Ty::List(i, r) if t.chance(1, 2) => Ty::List(Box::new(flip(t, i)), *r),
            _ => ty.with_req(!ty.required()),
        }
    }
    match t.pick(5) {
        3 => match base {
            Some(b) => wrap_ty(t, &b, true),
            None => flip(t, ty),
        },
        4 => match ty {
            Ty::List(i, _) if t.chance(1, 2) => (**i).clone(),
            _ => Ty::List(Box::new(ty.clone()), t.chance(1, 3)),
        },
        _ => flip(t, ty),
    }
}

fn redir(t: &mut Tape, s: &Schema, loc: &str, d: &mut Dirs) -> bool {
    let cands: Vec<DirDef> = s.directives.iter().cloned().chain(crate::refval::builtin_dirs()).filter(|x| x.locs.iter().any(|l| l == loc)).collect();
    let args = |t: &mut Tape, dd: &DirDef| -> Vec<(String, Val)> {
        let mut o = vec![];
        for a in &dd.args {
            if a.required() || t.chance(1, 2) {
                o.push((a.name.clone(), const_val(t, s, &a.ty, 1, false)));
            }
        }
        t.shuffle(&mut o);
        o
    };
    match t.pick(4) {
        0 | 1 if !cands.is_empty() => {
            let dd = t.choose(&cands).clone();
            if d.iter().any(|x| x.name == dd.name) && !dd.repeatable {
                return false;
            }
            let a = args(t, &dd);
            let at = t.pick(d.len() + 1);
            d.insert(at, Dir { name: dd.name, args: a });
            true
        }
        2 if !d.is_empty() => {
            let k = t.pick(d.len());
            d.remove(k);
            true
        }
        3 if !d.is_empty() => {
            let k = t.pick(d.len());
            let Some(dd) = crate::refval::dir_def(s, &d[k].name) else { return false };
            d[k].args = args(t, &dd);
            true
        }
        _ => false,
    }
}

fn edit_in(t: &mut Tape, s: &Schema, loc: &str, v: &mut InVal) -> Option<&'static str> {
    match t.pick(4) {
        0 => {
            let b = in_base(t, s);
            v.ty = retype(t, &v.ty, Some(b));
            Some("input type")
        }
        1 => {
            v.default = if v.default.is_some() && t.chance(1, 2) { None } else { Some(const_val(t, s, &v.ty, 1, false)) };
            Some("default value")
        }
        2 => new_desc(t, &mut v.desc).then_some("input description"),
        _ => redir(t, s, loc, &mut v.dirs).then_some("input directives"),
    }
}

fn edit_ins(t: &mut Tape, s: &Schema, loc: &str, l: &mut Vec<InVal>) -> Option<&'static str> {
    match t.pick(5) {
        0 => {
            let n = fresh(t, &|n| l.iter().any(|a| a.name == n), &ARG_NAMES);
            let v = new_in(t, s, n);
            let at = t.pick(l.len() + 1);
            l.insert(at, v);
            Some("input added")
        }
        1 if !l.is_empty() => {
            let k = t.pick(l.len());
            l.remove(k);
            Some("input removed")
        }
        _ if !l.is_empty() => {
            let k = t.pick(l.len());
            edit_in(t, s, loc, &mut l[k])
        }
        _ => None,
    }
}

fn edit_type(t: &mut Tape, s: &Schema, td: &mut TypeDef) -> Option<&'static str> {
    let loc = td.kind_name();
    match t.pick(8) {
        0 => return new_desc(t, &mut td.desc).then_some("type description"),
        1 => return redir(t, s, loc, &mut td.dirs).then_some("type directives"),
        _ => {}
    }
    let name = td.name.clone();
    match &mut td.kind {
        Kind::Scalar => None,
        Kind::Enum(v) => match t.pick(4) {
            0 => {
                let n = fresh(t, &|n| v.iter().any(|x| x.name == n), &ENUM_NAMES);
                let at = t.pick(v.len() + 1);
                v.insert(at, EnumVal { name: n, desc: None, dirs: vec![] });
                Some("enum value added")
            }
            1 if v.len() > 1 => {
                let k = t.pick(v.len());
                v.remove(k);
                Some("enum value removed")
            }
            2 if !v.is_empty() => {
                let k = t.pick(v.len());
                new_desc(t, &mut v[k].desc).then_some("enum value description")
            }
            _ if !v.is_empty() => {
                let k = t.pick(v.len());
                redir(t, s, "ENUM_VALUE", &mut v[k].dirs).then_some("enum value directives")
            }
            _ => None,
        },
        Kind::Input(l) => edit_ins(t, s, "INPUT_FIELD_DEFINITION", l),
        Kind::Union(m) => {
            if t.chance(1, 2) {
                let c: Vec<&String> = s.types.iter().filter(|x| x.is_object() && !m.contains(&x.name)).map(|x| &x.name).collect();
                if c.is_empty() {
                    return None;
                }
                let n = (*t.choose(&c)).clone();
                m.push(n);
                Some("union member added")
            } else if m.len() > 1 {
                let k = t.pick(m.len());
                m.remove(k);
                Some("union member removed")
            } else {
                None
            }
        }
        Kind::Object(i, f) | Kind::Interface(i, f) => match t.pick(8) {
            0 => {
                let c: Vec<&String> = s.types.iter().filter(|x| x.is_interface() && x.name != name && !x.ifaces().contains(&name) && !i.contains(&x.name)).map(|x| &x.name).collect();
                if c.is_empty() {
                    return None;
                }
                let n = (*t.choose(&c)).clone();
                i.push(n);
                Some("interface added")
            }
            1 if !i.is_empty() => {
                let k = t.pick(i.len());
                i.remove(k);
                Some("interface removed")
            }
            2 => {
                let n = fresh(t, &|n| f.iter().any(|x| x.name == n), &FIELD_NAMES);
                let d = new_field(t, s, n);
                let at = t.pick(f.len() + 1);
                f.insert(at, d);
                Some("field added")
            }
            3 if f.len() > 1 => {
                let k = t.pick(f.len());
                f.remove(k);
                Some("field removed")
            }
            k if !f.is_empty() => {
                let j = t.pick(f.len());
                let x = &mut f[j];
                match k {
                    4 => {
                        let b = out_base(t, s);
                        x.ty = retype(t, &x.ty, Some(b));
                        Some("field type")
                    }
                    5 => new_desc(t, &mut x.desc).then_some("field description"),
                    6 => redir(t, s, "FIELD_DEFINITION", &mut x.dirs).then_some("field directives"),
                    _ => edit_ins(t, s, "ARGUMENT_DEFINITION", &mut x.args),
                }
            }
            _ => None,
        },
    }
}

const TYPE_NAMES: [&str; 8] = ["New1", "New2", "Extra", "T0", "T1", "T2", "Mutation", "Subscription"];

fn new_kind(t: &mut Tape, s: &Schema) -> Kind {
    match t.pick(6) {
        0 => Kind::Scalar,
        1 => Kind::Enum(vec![EnumVal { name: "RED".into(), desc: None, dirs: vec![] }]),
        2 => Kind::Input(vec![new_in(t, s, "p".into())]),
        3 => Kind::Interface(vec![], vec![new_field(t, s, "a".into())]),
        4 => Kind::Union(vec![s.query.clone()]),
        _ => Kind::Object(vec![], vec![new_field(t, s, "a".into())]),
    }
}

/// One edit; what it was, when it is one that leads to a well-formed schema.
pub fn edit(t: &mut Tape, s: &mut Schema) -> Option<&'static str> {
    let old = s.clone();
    let what = try_edit(t, s);
    if what.is_some() {
        repair(s);
    }
    if what.is_none() || !well_formed(s) {
        *s = old;
        return None;
    }
    what
}

fn try_edit(t: &mut Tape, s: &mut Schema) -> Option<&'static str> {
    let snap = s.clone();
    match t.pick(20) {
        0 => {
            let n = fresh(t, &|n| snap.ty(n).is_some(), &TYPE_NAMES);
            let kind = new_kind(t, &snap);
            let at = t.pick(s.types.len() + 1);
            s.types.insert(at, TypeDef { name: n, desc: None, dirs: vec![], kind });
            Some("type added")
        }
        1 if s.types.len() > 1 => {
            let k = t.pick(s.types.len());
            if s.types[k].name == s.query {
                return None;
            }
            s.types.remove(k);
            Some("type removed")
        }
        2 => {
            let k = t.pick(s.types.len());
            if s.types[k].name == s.query {
                return None;
            }
            s.types[k].kind = new_kind(t, &snap);
            Some("type kind")
        }
        3 => {
            let n = fresh(t, &|n| crate::refval::dir_def(&snap, n).is_some(), &["d0", "d1", "cached", "auth"]);
            let mut locs: Vec<String> = vec![];
            for _ in 0..t.range(1, 4) {
                let l = t.choose(&LOCATIONS).to_string();
                if !locs.contains(&l) {
                    locs.push(l);
                }
            }
            let args = if t.chance(1, 2) { vec![new_in(t, &snap, "p".into())] } else { vec![] };
            s.directives.push(DirDef { name: n, desc: None, args, repeatable: t.chance(1, 3), locs });
            Some("directive added")
        }
        4 if !s.directives.is_empty() => {
            let k = t.pick(s.directives.len());
            s.directives.remove(k);
            Some("directive removed")
        }
        5..=7 if !s.directives.is_empty() => {
            let k = t.pick(s.directives.len());
            let d = &mut s.directives[k];
            match t.pick(5) {
                0 => new_desc(t, &mut d.desc).then_some("directive description"),
                1 => {
                    let l = t.choose(&LOCATIONS).to_string();
                    if d.locs.contains(&l) {
                        return None;
                    }
                    let at = t.pick(d.locs.len() + 1);
                    d.locs.insert(at, l);
                    Some("location added")
                }
                2 if d.locs.len() > 1 => {
                    let k = t.pick(d.locs.len());
                    d.locs.remove(k);
                    Some("location removed")
                }
                _ => edit_ins(t, &snap, "ARGUMENT_DEFINITION", &mut d.args),
            }
        }
        8 if s.explicit => redir(t, &snap, "SCHEMA", &mut s.dirs).then_some("schema directives"),
        // not reported by the comparator
        9 if t.chance(1, 3) => match t.pick(4) {
            0 if s.explicit => new_desc(t, &mut s.desc).then_some("schema description"),
            1 if !s.directives.is_empty() => {
                let k = t.pick(s.directives.len());
                s.directives[k].repeatable ^= true;
                Some("repeatable")
            }
            _ if s.explicit => {
                let c: Vec<String> = s.types.iter().filter(|x| x.is_object()).map(|x| x.name.clone()).collect();
                let r = if t.chance(1, 3) { None } else { Some(t.choose(&c).clone()) };
                match t.pick(3) {
                    0 => s.mutation = r,
                    1 => s.subscription = r,
                    _ => s.query = r?,
                }
                let roots: Vec<&String> = [Some(&s.query), s.mutation.as_ref(), s.subscription.as_ref()].into_iter().flatten().collect();
                if (1..roots.len()).any(|i| roots[..i].contains(&roots[i])) {
                    return None;
                }
                Some("roots")
            }
            _ => None,
        },
        10 => {
            t.shuffle(&mut s.types);
            t.shuffle(&mut s.directives);
            for x in &mut s.types {
                match &mut x.kind {
                    Kind::Object(i, f) | Kind::Interface(i, f) => {
                        t.shuffle(i);
                        t.shuffle(f);
                        f.iter_mut().for_each(|f| t.shuffle(&mut f.args));
                    }
                    Kind::Input(f) => t.shuffle(f),
                    Kind::Enum(v) => t.shuffle(v),
                    Kind::Union(m) => t.shuffle(m),
                    Kind::Scalar => {}
                }
            }
            Some("order")
        }
        _ => {
            let k = t.pick(s.types.len());
            edit_type(t, &snap, &mut s.types[k])
        }
    }
}
