//! Semantic edits of executable documents: what a client of another schema version, or a buggy
//! client, would send. An edit may or may not invalidate the document; the reference validator says.
use crate::gen::*;
use crate::model::*;
use crate::tape::Tape;

#[derive(Default)]
struct Sites {
    fields: Vec<*mut FieldSel>,
    lists: Vec<*mut Vec<Sel>>,
    dirs: Vec<*mut Dirs>,
    args: Vec<*mut Vec<(String, Val)>>,
    vals: Vec<*mut Val>,
    inlines: Vec<*mut Sel>,
    spreads: Vec<*mut Sel>,
}
impl Sites {
    fn val(&mut self, v: &mut Val) {
        self.vals.push(v as *mut _);
        match v {
            Val::List(l) => l.iter_mut().for_each(|x| self.val(x)),
            Val::Obj(o) => o.iter_mut().for_each(|x| self.val(&mut x.1)),
            _ => {}
        }
    }
    fn args(&mut self, a: &mut Vec<(String, Val)>) {
        self.args.push(a as *mut _);
        a.iter_mut().for_each(|x| self.val(&mut x.1));
    }
    fn dirs(&mut self, d: &mut Dirs) {
        self.dirs.push(d as *mut _);
        d.iter_mut().for_each(|d| self.args(&mut d.args));
    }
    fn sels(&mut self, s: &mut Vec<Sel>) {
        self.lists.push(s as *mut _);
        for x in s.iter_mut() {
            let p = x as *mut Sel;
            match x {
                Sel::Field(f) => {
                    self.fields.push(f as *mut _);
                    self.args(&mut f.args);
                    self.dirs(&mut f.dirs);
                    if !f.sels.is_empty() {
                        self.sels(&mut f.sels);
                    }
                }
                Sel::Inline(_, d, s) => {
                    self.inlines.push(p);
                    self.dirs(d);
                    self.sels(s);
                }
                Sel::Spread(_, d) => {
                    self.spreads.push(p);
                    self.dirs(d);
                }
            }
        }
    }
    fn of(d: &mut Doc) -> Sites {
        let mut s = Sites::default();
        for x in &mut d.defs {
            match x {
                Def::Op(o) => {
                    for v in &mut o.vars {
                        s.dirs(&mut v.dirs);
                        if let Some(d) = &mut v.default {
                            s.val(d);
                        }
                    }
                    s.dirs(&mut o.dirs);
                    s.sels(&mut o.sels);
                }
                Def::Frag(f) => {
                    s.dirs(&mut f.dirs);
                    s.sels(&mut f.sels);
                }
            }
        }
        s
    }
}

pub fn field(name: &str) -> Sel {
    Sel::Field(FieldSel { alias: None, name: name.into(), args: vec![], dirs: vec![], sels: vec![] })
}

fn is_name(n: &str) -> bool {
    let mut c = n.chars();
    c.next().map_or(false, |x| x.is_ascii_alphabetic() || x == '_') && c.all(|x| x.is_ascii_alphanumeric() || x == '_') && !matches!(n, "true" | "false" | "null")
}
fn any_name(t: &mut Tape, s: &Schema) -> String {
    match t.pick(4) {
        0 => "Nope".into(),
        1 => "Int".into(),
        _ => t.choose(&s.types).name.clone(),
    }
}
fn any_field_name(t: &mut Tape, s: &Schema) -> String {
    if t.chance(1, 5) {
        return "nope".into();
    }
    let all: Vec<String> = s.types.iter().flat_map(|t| t.fields().iter().map(|f| f.name.clone())).collect();
    if all.is_empty() {
        return "nope".into();
    }
    t.choose(&all).clone()
}
pub fn wrong_val(t: &mut Tape, s: &Schema) -> Val {
    match t.pick(12) {
        0 => Val::Null,
        1 => Val::Int(5),
        2 => Val::Str("w".into()),
        3 => Val::Bool(true),
        4 => Val::Float(2.5),
        5 => Val::Enum("NOT_A_VALUE".into()),
        6 => Val::List(vec![]),
        7 => Val::List(vec![Val::Null]),
        8 => Val::Obj(vec![]),
        9 => Val::Obj(vec![("nope".into(), Val::Int(1))]),
        10 => Val::List(vec![Val::List(vec![Val::Int(1)])]),
        _ => {
            let e: Vec<String> = s.types.iter().flat_map(|t| t.enum_vals().iter().map(|f| f.name.clone())).collect();
            if e.is_empty() {
                Val::Enum("E".into())
            } else {
                Val::Enum(t.choose(&e).clone())
            }
        }
    }
}
pub fn op_mut<'d>(t: &mut Tape, d: &'d mut Doc) -> Option<&'d mut Op> {
    let n = d.ops().count();
    if n == 0 {
        return None;
    }
    let k = t.pick(n);
    d.defs.iter_mut().filter_map(|x| if let Def::Op(o) = x { Some(o) } else { None }).nth(k)
}
fn frag_mut<'d>(t: &mut Tape, d: &'d mut Doc) -> Option<&'d mut Frag> {
    let n = d.frags().count();
    if n == 0 {
        return None;
    }
    let k = t.pick(n);
    d.defs.iter_mut().filter_map(|x| if let Def::Frag(o) = x { Some(o) } else { None }).nth(k)
}
fn at<'x, T>(t: &mut Tape, v: &[*mut T]) -> Option<&'x mut T> {
    if v.is_empty() {
        None
    } else {
        // the pointers come from a live exclusive borrow of the document and are used one at a time
        Some(unsafe { &mut **t.choose(v) })
    }
}

/// One edit; returns its name.
pub fn mutate(t: &mut Tape, s: &Schema, d: &mut Doc) -> &'static str {
    for _ in 0..8 {
        if let Some(n) = try_mutate(t, s, d) {
            for x in &mut d.defs {
                if let Def::Op(o) = x {
                    o.shorthand &= o.kind == OpKind::Query && o.name.is_none() && o.vars.is_empty() && o.dirs.is_empty();
                }
            }
            return n;
        }
    }
    "none"
}

fn try_mutate(t: &mut Tape, s: &Schema, d: &mut Doc) -> Option<&'static str> {
    let k = t.pick(48);
    let si = Sites::of(d);
    Some(match k {
        0 => {
            at(t, &si.fields)?.name = any_field_name(t, s);
            "rename field"
        }
        1 => {
            let a = at(t, &si.args)?;
            if a.is_empty() {
                return None;
            }
            let i = t.pick(a.len());
            a.remove(i);
            "drop argument"
        }
        2 => {
            let a = at(t, &si.args)?;
            a.push(("unknownArg".into(), Val::Int(1)));
            "unknown argument"
        }
        3 => {
            let a = at(t, &si.args)?;
            if a.is_empty() {
                return None;
            }
            let x = t.choose(a).clone();
            a.push(x);
            "duplicate argument"
        }
        4..=7 => {
            *at(t, &si.vals)? = wrong_val(t, s);
            "replace value"
        }
        8 => {
            let f = at(t, &si.fields)?;
            f.sels.clear();
            "drop selections"
        }
        9 => {
            let f = at(t, &si.fields)?;
            f.sels.push(field("__typename"));
            "add selection"
        }
        10 => {
            let f = at(t, &si.fields)?;
            f.alias = Some((*t.choose(&["m", "n", "a", "b"])).to_string());
            "alias field"
        }
        11 => {
            if let Sel::Inline(on, _, _) = at(t, &si.inlines)? {
                *on = Some(any_name(t, s));
            }
            "inline condition"
        }
        12 => {
            if let Sel::Spread(n, _) = at(t, &si.spreads)? {
                *n = if t.chance(1, 2) { "Missing".into() } else { format!("F{}", t.pick(4)) };
            }
            "spread target"
        }
        13 => {
            let on = any_name(t, s);
            frag_mut(t, d)?.on = on;
            "fragment condition"
        }
        14 => {
            let n = format!("F{}", t.pick(4));
            frag_mut(t, d)?.name = n;
            "rename fragment"
        }
        15 => {
            let l = at(t, &si.lists)?;
            l.push(Sel::Spread(format!("F{}", t.pick(4)), vec![]));
            "extra spread"
        }
        16 => {
            let comp: Vec<String> = s.types.iter().filter(|x| x.is_composite()).map(|x| x.name.clone()).collect();
            let l = at(t, &si.lists)?;
            l.push(Sel::Inline(Some(t.choose(&comp).clone()), vec![], vec![field("__typename")]));
            "extra inline fragment"
        }
        17 => {
            d.defs.push(Def::Frag(Frag { name: "Unused".into(), on: any_name(t, s), dirs: vec![], sels: vec![field("__typename")] }));
            "unused fragment"
        }
        18 => {
            let o = op_mut(t, d)?;
            if o.vars.is_empty() {
                return None;
            }
            let i = t.pick(o.vars.len());
            o.vars.remove(i);
            "drop variable"
        }
        19 => {
            let o = op_mut(t, d)?;
            if o.vars.is_empty() {
                return None;
            }
            let x = t.choose(&o.vars).clone();
            o.vars.push(x);
            "duplicate variable"
        }
        20 => {
            let b = any_name(t, s);
            let o = op_mut(t, d)?;
            o.vars.push(VarDef { name: "extra".into(), ty: wrap_ty(t, &b, true), default: None, dirs: vec![] });
            o.shorthand = false;
            "unused variable"
        }
        21 | 22 => {
            let b = any_name(t, s);
            let o = op_mut(t, d)?;
            if o.vars.is_empty() {
                return None;
            }
            let i = t.pick(o.vars.len());
            let v = &mut o.vars[i];
            match t.pick(5) {
                0 => v.ty = v.ty.with_req(!v.ty.required()),
                1 => v.ty = v.ty.rebase(&b),
                2 => v.ty = Ty::List(Box::new(v.ty.clone()), t.chance(1, 2)),
                3 => {
                    v.default = if v.default.is_some() { None } else { Some(Val::Null) };
                }
                _ => {
                    if let Ty::List(i, r) = &v.ty {
                        let inner = if t.chance(1, 3) { (**i).clone() } else { Ty::List(Box::new(flip(t, i)), *r) };
                        v.ty = inner;
                    } else {
                        v.ty = v.ty.with_req(!v.ty.required());
                    }
                }
            }
            "variable type"
        }
        23 => {
            let o = op_mut(t, d)?;
            if o.vars.is_empty() {
                return None;
            }
            let i = t.pick(o.vars.len());
            o.vars[i].default = Some(wrong_val(t, s));
            "variable default"
        }
        24 | 25 => {
            *at(t, &si.vals)? = Val::Var(if t.chance(1, 3) { "undefinedVar".into() } else { format!("v{}", t.pick(5)) });
            "value to variable"
        }
        26 => {
            let ds = at(t, &si.dirs)?;
            ds.push(Dir { name: "unknownDir".into(), args: vec![] });
            "unknown directive"
        }
        27 | 28 => {
            let ds = at(t, &si.dirs)?;
            let all: Vec<String> = s.directives.iter().map(|x| x.name.clone()).chain(["skip", "include", "deprecated", "specifiedBy", "oneOf"].iter().map(|x| x.to_string())).collect();
            let n = t.choose(&all).clone();
            let args = match n.as_str() {
                "skip" | "include" => vec![("if".to_string(), Val::Bool(true))],
                "specifiedBy" => vec![("url".to_string(), Val::Str("u".into()))],
                _ => match s.dir(&n) {
                    Some(dd) => {
                        let dd = dd.clone();
                        dd.args.iter().filter(|a| a.required()).map(|a| (a.name.clone(), const_val(t, s, &a.ty, 1, false))).collect()
                    }
                    None => vec![],
                },
            };
            ds.push(Dir { name: n, args });
            "extra directive"
        }
        29 => {
            let ds = at(t, &si.dirs)?;
            if ds.is_empty() {
                return None;
            }
            let x = t.choose(ds).clone();
            ds.push(x);
            "duplicate directive"
        }
        30 => {
            let n = d.ops().next().and_then(|o| o.name.clone());
            let o = op_mut(t, d)?;
            o.name = n.or(Some("Op0".into()));
            o.shorthand = false;
            "rename operation"
        }
        31 => {
            op_mut(t, d)?.name = None;
            "anonymous operation"
        }
        32 => {
            d.defs.push(Def::Op(Op { kind: OpKind::Query, shorthand: true, name: None, vars: vec![], dirs: vec![], sels: vec![field("__typename")] }));
            "extra operation"
        }
        33 => {
            let k = *t.choose(&[OpKind::Query, OpKind::Mutation, OpKind::Subscription]);
            let o = op_mut(t, d)?;
            o.kind = k;
            if k != OpKind::Query && o.shorthand {
                o.shorthand = false;
            }
            "operation kind"
        }
        34 => {
            let l = at(t, &si.lists)?;
            if l.len() < 2 {
                return None;
            }
            let i = t.pick(l.len());
            l.remove(i);
            "drop selection"
        }
        35 => {
            let f = at(t, &si.fields)?;
            let mut g = f.clone();
            match t.pick(3) {
                0 => g.name = any_field_name(t, s),
                1 => {
                    g.args.pop();
                }
                _ => {
                    if let Some(a) = g.args.first_mut() {
                        a.1 = wrong_val(t, s);
                    }
                }
            }
            if g.alias.is_none() {
                g.alias = Some(f.name.clone());
            }
            let l = at(t, &si.lists)?;
            l.push(Sel::Field(g));
            "conflicting field"
        }
        36 => {
            // copy a selection to another place
            let f = at(t, &si.fields)?.clone();
            let l = at(t, &si.lists)?;
            l.push(Sel::Field(f));
            "copy field"
        }
        37 => {
            let l = at(t, &si.lists)?;
            let sub = l.clone();
            l.push(Sel::Inline(None, vec![], sub));
            "duplicate selections in fragment"
        }
        38 => {
            // a nested object value changes
            let objs: Vec<*mut Val> = si.vals.iter().copied().filter(|v| matches!(unsafe { &**v }, Val::Obj(_))).collect();
            if let Val::Obj(o) = at(t, &objs)? {
                match t.pick(4) {
                    0 => o.push(("nope".into(), Val::Int(1))),
                    1 => {
                        o.pop();
                    }
                    2 => {
                        let x = o.first().cloned()?;
                        o.push(x)
                    }
                    _ => {
                        let td = t.choose(&s.types).clone();
                        let f = td.in_fields().first()?;
                        o.push((f.name.clone(), const_val(t, s, &f.ty, 1, false)));
                    }
                }
            }
            "edit input object"
        }
        39 => {
            let lists: Vec<*mut Val> = si.vals.iter().copied().filter(|v| matches!(unsafe { &**v }, Val::List(_))).collect();
            if let Val::List(o) = at(t, &lists)? {
                let v = if t.chance(1, 3) { Val::Var(format!("v{}", t.pick(5))) } else { wrong_val(t, s) };
                o.push(v);
            }
            "edit list"
        }
        40 => {
            let v = at(t, &si.vals)?;
            let x = v.clone();
            *v = Val::List(vec![x]);
            "wrap value in list"
        }
        41 => {
            let v = at(t, &si.vals)?;
            if let Val::List(l) = v {
                if let Some(x) = l.first().cloned() {
                    *v = x;
                }
            }
            "unwrap list"
        }
        42 => {
            let n = d.defs.len();
            let i = t.pick(n);
            let x = d.defs[i].clone();
            d.defs.push(x);
            "duplicate definition"
        }
        43 => {
            if d.ops().count() < 2 && matches!(d.defs[0], Def::Op(_)) && d.defs.len() == 1 {
                return None;
            }
            let i = t.pick(d.defs.len());
            if d.defs.len() > 1 {
                d.defs.remove(i);
            }
            "drop definition"
        }
        44 => {
            // subscription with several root fields
            let r = s.subscription.clone()?;
            let td = s.ty(&r)?;
            let f = t.choose(td.fields()).clone();
            let args: Vec<(String, Val)> = f.args.iter().filter(|a| a.required()).map(|a| (a.name.clone(), const_val(t, s, &a.ty, 1, false))).collect();
            let sels = if s.is_composite(f.ty.base()) { vec![field("__typename")] } else { vec![] };
            let sel = Sel::Field(FieldSel { alias: t.chance(1, 2).then(|| "z".to_string()), name: f.name.clone(), args, dirs: vec![], sels });
            let op = d.defs.iter_mut().find_map(|x| match x {
                Def::Op(o) if o.kind == OpKind::Subscription => Some(o),
                _ => None,
            })?;
            match t.pick(3) {
                0 => op.sels.push(sel),
                1 => op.sels.push(Sel::Inline(None, vec![], vec![sel])),
                _ => op.sels.push(Sel::Inline(Some(r), vec![], vec![sel])),
            }
            "second subscription field"
        }
        45 | 46 => {
            // the same literal in another notation
            let lits: Vec<*mut Val> = si.vals.iter().copied().filter(|v| !matches!(unsafe { &**v }, Val::Obj(_) | Val::List(_) | Val::Null | Val::Var(_))).collect();
            let v = at(t, &lits)?;
            *v = match (&*v, t.pick(3)) {
                (Val::Enum(n), _) => Val::Str(n.clone()),
                (Val::Str(n), k) => match n.parse::<i32>() {
                    Ok(i) if k > 0 => Val::Int(i),
                    _ if is_name(n) => Val::Enum(n.clone()),
                    _ => Val::List(vec![Val::Str(n.clone())]),
                },
                (Val::Int(i), 0) => Val::Float(*i as f64),
                (Val::Int(i), 1) => Val::Str(i.to_string()),
                (Val::Int(i), _) => Val::Bool(*i != 0),
                (Val::Float(f), 0) => Val::Int(*f as i32),
                (Val::Float(f), _) => Val::Str(f.to_string()),
                (Val::Bool(b), 0) => Val::Str(b.to_string()),
                (Val::Bool(b), 1) => Val::Int(*b as i32),
                (x, _) => Val::List(vec![x.clone()]),
            };
            "literal notation"
        }
        _ => {
            // a cycle
            let names: Vec<String> = d.frags().map(|f| f.name.clone()).collect();
            if names.is_empty() {
                return None;
            }
            let n = t.choose(&names).clone();
            let f = frag_mut(t, d)?;
            if t.chance(1, 2) {
                f.sels.push(Sel::Spread(n, vec![]));
            } else {
                f.sels.push(Sel::Inline(None, vec![], vec![Sel::Spread(n, vec![])]));
            }
            "spread inside fragment"
        }
    })
}
