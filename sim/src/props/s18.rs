//! S18: a refusal names and points at what is wrong, wherever it is and whatever else is wrong.
use super::Prop;
use crate::ctx::{viol, Ctx, R};
use crate::gen::*;
use crate::model::*;
use crate::refparse::{self, lex, Tok, K};
use crate::sdlmut::*;
use crate::tape::Tape;
use crate::world::*;
use bluejay_parser::ast::definition::{DefaultContext, DefinitionDocument, SchemaDefinition};
use bluejay_parser::ast::Parse;
use bluejay_validator::definition::BuiltinRulesValidator;
use bluejay_validator::executable::Cache;

pub const PROP: Prop = Prop {
    id: "S18",
    run,
    known: &[],
    quick_secs: 40,
    thorough_secs: 600,
    min_secs: 30,
    rule: "A run interleaves 2-4 clients whose defects are known: each document is a valid one into which 1-4 defects (31 kinds) were planted at recorded places, written with arbitrary white space, comments, line ends and characters outside ASCII; in one run in four teams publish schemas with 1-4 defects (24 kinds) instead. The gateway must report every planted defect at its place and by its name, and no error of a planted kind anywhere else; one report of all errors must equal the reports of each. Non-trivial: at least one planted defect was looked up.",
    real: "bluejay-validator rules, orchestrator, error conversion; bluejay-parser spans, definition document errors, line and column conversion, error reports",
    stub: "clients, teams, gateway loop",
    assumptions: "an error may point at any token of the defective element's head; locations are 1-based lines and characters, lines end at \\n, \\r or \\r\\n (documents with other Unicode line breaks are not judged)",
};

#[derive(Debug, Clone, Copy, PartialEq)]
enum Occ {
    Any,
    All,
    /// an occurrence after `...`
    Spread,
    /// the occurrence after `fragment`
    Def,
    /// an occurrence that is not a variable's definition
    Use,
    /// an open brace around an occurrence
    Around,
}
#[derive(Debug, Clone)]
struct Exp {
    class: &'static str,
    sent: String,
    occ: Occ,
    back: usize,
    /// tokens after the sentinel; usize::MAX: up to the closing parenthesis
    fwd: usize,
    /// tokens before the sentinel at which the range already ends
    until: usize,
    /// distinct locations wanted
    min: usize,
    named: bool,
    /// classes this defect may additionally cause, near its own names
    also: &'static [&'static str],
}

fn norm(c: &'static str) -> &'static str {
    if c.starts_with("Merge") {
        "Merge"
    } else {
        c
    }
}

struct List {
    on: String,
    def: usize,
}
fn lists(s: &Schema, d: &Doc, defs: usize) -> Vec<Option<List>> {
    fn go(s: &Schema, sels: &[Sel], on: &str, def: usize, out: &mut Vec<Option<List>>) {
        out.push((s.is_composite(on) && !s.possible(on).is_empty()).then(|| List { on: on.into(), def }));
        for x in sels {
            match x {
                Sel::Field(f) if !f.sels.is_empty() => {
                    let ty = s.field_ty(on, &f.name).filter(|_| !f.key().starts_with("zz")).map(|t| t.base().to_string()).unwrap_or_default();
                    go(s, &f.sels, &ty, def, out)
                }
                // nothing is planted inside what was planted
                Sel::Inline(_, _, x) if matches!(&x[..], [Sel::Field(f)] if f.key().starts_with("zz")) => go(s, x, "", def, out),
                Sel::Inline(c, _, x) => go(s, x, c.as_deref().unwrap_or(on), def, out),
                _ => {}
            }
        }
    }
    let mut out = vec![];
    for (i, x) in d.defs.iter().enumerate() {
        let n = out.len();
        match x {
            Def::Op(o) => go(s, &o.sels, s.root(o.kind).unwrap_or(""), i, &mut out),
            Def::Frag(f) => go(s, &f.sels, &f.on, i, &mut out),
        }
        if i >= defs {
            out[n..].iter_mut().for_each(|l| *l = None);
        }
    }
    out
}
fn insert(d: &mut Doc, at: usize, t: &mut Tape, new: Vec<Sel>) {
    fn go<'x>(sels: &'x mut Vec<Sel>, n: &mut usize, at: usize) -> Option<&'x mut Vec<Sel>> {
        if *n == at {
            return Some(sels);
        }
        *n += 1;
        for x in sels.iter_mut() {
            match x {
                Sel::Field(f) if !f.sels.is_empty() => {
                    if let Some(r) = go(&mut f.sels, n, at) {
                        return Some(r);
                    }
                }
                Sel::Inline(_, _, x) => {
                    if let Some(r) = go(x, n, at) {
                        return Some(r);
                    }
                }
                _ => {}
            }
        }
        None
    }
    let mut n = 0;
    for x in d.defs.iter_mut() {
        let sels = match x {
            Def::Op(o) => &mut o.sels,
            Def::Frag(f) => &mut f.sels,
        };
        if let Some(l) = go(sels, &mut n, at) {
            for s in new {
                let i = t.pick(l.len() + 1);
                l.insert(i, s);
            }
            return;
        }
    }
}

fn fld(alias: &str, name: &str) -> FieldSel {
    FieldSel { alias: Some(alias.into()), name: name.into(), args: vec![], dirs: vec![], sels: vec![] }
}
fn dir(name: &str, args: Vec<(String, Val)>) -> Dir {
    Dir { name: name.into(), args }
}
fn typename() -> Sel {
    crate::mutate::field("__typename")
}

/// Put `new` in place of some part of a valid value `v` of type `ty`; true when it was.
fn replace(t: &mut Tape, s: &Schema, ty: &Ty, v: &mut Val, sent: &str, var: bool, named: &mut bool, leaf: &mut Ty, back: &mut usize) -> bool {
    if var && t.chance(1, 3) {
        *leaf = ty.clone();
        *v = Val::Var(sent.into());
        return true;
    }
    match ty {
        Ty::List(i, _) => match v {
            Val::List(l) if !l.is_empty() => {
                let k = t.pick(l.len());
                replace(t, s, i, &mut l[k], sent, var, named, leaf, back)
            }
            Val::List(l) => {
                l.push(Val::Null);
                replace(t, s, i, &mut l[0], sent, var, named, leaf, back)
            }
            // a value that stands for a list of one
            _ => {
                let r = replace(t, s, i, v, sent, false, named, leaf, back) && !var;
                *named = false;
                r
            }
        },
        Ty::Named(n, _) => {
            let td = s.ty(n);
            if let (Some(Kind::Input(fs)), Val::Obj(o)) = (td.map(|x| &x.kind), &mut *v) {
                if !o.is_empty() && t.chance(3, 4) {
                    let k = t.pick(o.len());
                    if let Some(f) = fs.iter().find(|f| f.name == o[k].0) {
                        return replace(t, s, &f.ty, &mut o[k].1, sent, var, named, leaf, back);
                    }
                }
                if !var && !td.unwrap().one_of() {
                    let k = t.pick(o.len() + 1);
                    o.insert(k, (sent.into(), Val::Int(1)));
                    *named = true;
                    return true;
                }
            }
            if var {
                *leaf = ty.clone();
                *v = Val::Var(sent.into());
                return true;
            }
            let kind = td.map(|x| &x.kind);
            *v = match (n.as_str(), kind) {
                ("String" | "ID", _) => Val::Enum(sent.into()),
                (_, Some(Kind::Enum(_))) => {
                    *named = true;
                    Val::Enum(sent.into())
                }
                ("Int" | "Float" | "Boolean", _) | (_, Some(Kind::Input(_))) => match t.pick(3) {
                    0 => Val::Enum(sent.into()),
                    1 => Val::Str(sent.into()),
                    _ if kind.is_none() => {
                        *back = 1;
                        Val::Obj(vec![(sent.into(), Val::Null)])
                    }
                    _ => Val::Str(sent.into()),
                },
                _ => return false,
            };
            true
        }
    }
}

fn plant(t: &mut Tape, s: &Schema, d: &mut Doc, defs: usize, i: usize) -> Option<Exp> {
    let z = format!("zz{i}");
    let za = format!("zza{i}");
    let ls = lists(s, d, defs);
    let ok: Vec<usize> = (0..ls.len()).filter(|i| ls[*i].is_some()).collect();
    if ok.is_empty() {
        return None;
    }
    let at = *t.choose(&ok);
    let l = ls[at].as_ref().unwrap();
    let in_op = matches!(d.defs[l.def], Def::Op(_));
    let on = l.on.clone();
    let e = |class| Exp { class, sent: z.clone(), occ: Occ::Any, back: 0, fwd: 0, until: 0, min: 1, named: true, also: &[] };
    let fields: Vec<&FieldDef> = s.ty(&on).map(|x| x.fields().iter().collect()).unwrap_or_default();
    let tn = |alias: &str| fld(alias, "__typename");
    let yes = || vec![("if".to_string(), Val::Bool(true))];
    let frag = |name: &str, on: &str, sels: Vec<Sel>| Def::Frag(Frag { name: name.into(), on: on.into(), dirs: vec![], sels });
    let apart: Vec<String> = s.types.iter().filter(|x| x.is_composite() && !s.overlap(&x.name, &on)).map(|x| x.name.clone()).collect();
    let not_comp: Vec<String> = s.types.iter().filter(|x| !x.is_composite()).map(|x| x.name.clone()).chain(["Int".to_string()]).collect();
    let full = |t: &mut Tape, f: &FieldDef, alias: &str| {
        let mut x = fld(alias, &f.name);
        x.args = const_args(t, s, &f.args);
        if s.is_composite(f.ty.base()) {
            x.sels = vec![typename()];
        }
        x
    };
    let op = |name: Option<&str>, kind, sels| Def::Op(Op { kind, shorthand: false, name: name.map(Into::into), vars: vec![], dirs: vec![], sels });
    let named_ops = d.ops().all(|o| o.name.is_some());
    let add_var = |t: &mut Tape, d: &mut Doc, def: usize, v: VarDef| {
        if let Def::Op(o) = &mut d.defs[def] {
            o.shorthand = false;
            let k = t.pick(o.vars.len() + 1);
            o.vars.insert(k, v);
        }
    };
    let vdef = |name: &str, ty: Ty| VarDef { name: name.into(), ty, default: None, dirs: vec![] };
    let some_op = {
        let ops: Vec<usize> = (0..defs).filter(|i| matches!(d.defs[*i], Def::Op(_))).collect();
        *t.choose(&ops)
    };
    let copies = if t.chance(2, 3) { 2 } else { t.range(3, 4) };
    let put = |t: &mut Tape, d: &mut Doc, v: Vec<Sel>| insert(d, at, t, v);
    Some(match t.pick(31) {
        0 => {
            put(t, d, vec![Sel::Field(FieldSel { alias: None, name: z.clone(), args: vec![], dirs: vec![], sels: vec![] })]);
            e("FieldUnknown")
        }
        1 => {
            let mut f = fld(&za, &z);
            f.sels = vec![typename()];
            f.args = vec![("x".into(), Val::Str("é🔥".into()))];
            put(t, d, vec![Sel::Field(f)]);
            Exp { back: 2, ..e("FieldUnknown") }
        }
        2 => {
            let mut f = tn(&za);
            f.sels = vec![crate::mutate::field(&z)];
            put(t, d, vec![Sel::Field(f)]);
            Exp { back: 4, fwd: 1, named: false, ..e("LeafSel") }
        }
        3 => {
            let fs: Vec<&&FieldDef> = fields.iter().filter(|f| s.is_composite(f.ty.base()) && f.args.iter().all(|a| !a.required())).collect();
            if fs.is_empty() {
                return None;
            }
            let n = t.choose(&fs).name.clone();
            put(t, d, vec![Sel::Field(fld(&z, &n))]);
            Exp { fwd: 2, named: false, ..e("NonLeafNoSel") }
        }
        4 => {
            let fs: Vec<&&FieldDef> = fields.iter().collect();
            let mut f = if fs.is_empty() || t.chance(1, 3) {
                tn(&za)
            } else {
                let f = *t.choose(&fs);
                full(t, f, &za)
            };
            let k = t.pick(f.args.len() + 1);
            f.args.insert(k, (z.clone(), Val::Int(1)));
            put(t, d, vec![Sel::Field(f)]);
            Exp { fwd: 2, ..e("ArgUnknownField") }
        }
        5 => {
            let fs: Vec<&&FieldDef> = fields.iter().filter(|f| f.args.iter().any(|a| a.required())).collect();
            if fs.is_empty() {
                return None;
            }
            let f = fs[t.pick(fs.len())];
            let mut x = full(t, f, &z);
            let req: Vec<&InVal> = f.args.iter().filter(|a| a.required()).collect();
            let gone = t.choose(&req).name.clone();
            x.args.retain(|a| a.0 != gone);
            put(t, d, vec![Sel::Field(x)]);
            Exp { fwd: 2, ..e("ArgMissingField") }
        }
        6 => {
            let mut f = tn(&z);
            let a = (0..copies).flat_map(|_| yes()).collect();
            f.dirs = vec![dir("include", a)];
            put(t, d, vec![Sel::Field(f)]);
            Exp { fwd: usize::MAX, min: copies, named: false, ..e("ArgUniq") }
        }
        7 => {
            let fs: Vec<&&FieldDef> = fields.iter().filter(|f| !f.args.is_empty()).collect();
            if fs.is_empty() {
                return None;
            }
            let f = fs[t.pick(fs.len())];
            let mut x = full(t, f, &z);
            if x.args.is_empty() {
                return None;
            }
            let k = t.pick(x.args.len());
            let a = x.args[k].clone();
            x.args.extend(std::iter::repeat(a).take(copies - 1));
            put(t, d, vec![Sel::Field(x)]);
            Exp { fwd: usize::MAX, min: copies, named: false, ..e("ArgUniq") }
        }
        8 => {
            let mut f = tn(&za);
            f.dirs = vec![dir(&z, vec![])];
            put(t, d, vec![Sel::Field(f)]);
            Exp { back: 1, ..e("DirUnknown") }
        }
        9 => {
            let mut f = tn(&za);
            let mut a = yes();
            a.insert(t.pick(2), (z.clone(), Val::Int(1)));
            f.dirs = vec![dir("skip", a)];
            put(t, d, vec![Sel::Field(f)]);
            Exp { fwd: 2, ..e("ArgUnknownDir") }
        }
        10 => {
            let mut f = tn(&z);
            f.dirs = vec![dir("include", vec![])];
            put(t, d, vec![Sel::Field(f)]);
            Exp { fwd: 4, named: false, ..e("ArgMissingDir") }
        }
        11 => {
            let mut f = tn(&z);
            f.dirs = (0..copies).map(|_| dir("include", yes())).collect();
            put(t, d, vec![Sel::Field(f)]);
            Exp { fwd: copies * 8, min: copies, named: false, ..e("DirUniq") }
        }
        12 => {
            let mut f = tn(&z);
            f.dirs = vec![dir("deprecated", vec![])];
            put(t, d, vec![Sel::Field(f)]);
            Exp { fwd: 4, named: false, ..e("DirLoc") }
        }
        13 => {
            put(t, d, vec![Sel::Inline(Some(z.clone()), vec![], vec![typename()])]);
            Exp { back: 2, ..e("InlineNoType") }
        }
        14 => {
            let n = t.choose(&not_comp).clone();
            put(t, d, vec![Sel::Inline(Some(n), vec![], vec![Sel::Field(tn(&z))])]);
            Exp { back: 4, until: 2, named: false, ..e("InlineNotComposite") }
        }
        15 => {
            if apart.is_empty() {
                return None;
            }
            let n = t.choose(&apart).clone();
            put(t, d, vec![Sel::Inline(Some(n), vec![], vec![Sel::Field(tn(&z))])]);
            Exp { back: 4, until: 2, named: false, ..e("InlineImpossible") }
        }
        16 => {
            put(t, d, vec![Sel::Spread(z.clone(), vec![])]);
            Exp { back: 1, ..e("SpreadUndefined") }
        }
        17 => {
            if apart.is_empty() {
                return None;
            }
            let n = t.choose(&apart).clone();
            put(t, d, vec![Sel::Spread(z.clone(), vec![])]);
            d.defs.push(frag(&z, &n, vec![typename()]));
            Exp { back: 1, occ: Occ::Spread, ..e("SpreadImpossible") }
        }
        18 => {
            put(t, d, vec![Sel::Spread(z.clone(), vec![])]);
            d.defs.push(frag(&z, &on, vec![typename(), Sel::Spread(z.clone(), vec![])]));
            Exp { back: 1, ..e("FragCycle") }
        }
        19 => {
            d.defs.push(frag(&z, &on, vec![typename()]));
            Exp { back: 1, occ: Occ::Def, ..e("FragUnused") }
        }
        20 => {
            put(t, d, vec![Sel::Spread(za.clone(), vec![])]);
            d.defs.push(frag(&za, &z, vec![typename()]));
            Exp { back: 1, also: &["SpreadImpossible", "FragUnused"], ..e("FragNoType") }
        }
        21 => {
            let n = t.choose(&not_comp).clone();
            put(t, d, vec![Sel::Spread(z.clone(), vec![])]);
            d.defs.push(frag(&z, &n, vec![typename()]));
            Exp { occ: Occ::Def, fwd: 2, named: false, also: &["SpreadImpossible", "FragUnused"], ..e("FragNotComposite") }
        }
        22 => {
            put(t, d, vec![Sel::Spread(za.clone(), vec![])]);
            d.defs.push(frag(&za, &on, vec![typename(), Sel::Spread(z.clone(), vec![])]));
            for _ in 0..copies {
                d.defs.push(frag(&z, &on, vec![typename()]));
            }
            Exp { occ: Occ::Def, min: copies, back: 1, also: &["FragUnused"], ..e("FragNameUniq") }
        }
        23 => {
            let fs: Vec<&&FieldDef> = fields.iter().filter(|f| !f.args.is_empty()).collect();
            let sel = |t: &mut Tape, var: bool| -> Option<(FieldSel, bool, Ty, usize)> {
                let f = if fs.is_empty() { return None } else { fs[t.pick(fs.len())] };
                let mut x = full(t, f, &za);
                let a = &f.args[t.pick(f.args.len())];
                let mut v = const_val(t, s, &a.ty, 2, false);
                let (mut named, mut leaf, mut back) = (false, a.ty.clone(), 0);
                if !replace(t, s, &a.ty, &mut v, &z, var, &mut named, &mut leaf, &mut back) {
                    return None;
                }
                x.args.retain(|y| y.0 != a.name);
                let k = t.pick(x.args.len() + 1);
                x.args.insert(k, (a.name.clone(), v));
                Some((x, named, leaf, back))
            };
            match t.pick(3) {
                0 => {
                    let (x, named, _, back) = sel(t, false)?;
                    put(t, d, vec![Sel::Field(x)]);
                    Exp { named, back, ..e("Value") }
                }
                1 => {
                    let (x, _, _, _) = sel(t, true)?;
                    put(t, d, vec![Sel::Field(x)]);
                    e("VarUndefined")
                }
                _ => {
                    if !in_op {
                        return None;
                    }
                    let def = l.def;
                    let (x, _, leaf, _) = sel(t, true)?;
                    let mut ty = Ty::Named(leaf.base().into(), true);
                    // deeper than any type of a schema
                    for _ in 0..8 {
                        ty = Ty::List(Box::new(ty), true);
                    }
                    put(t, d, vec![Sel::Field(x)]);
                    add_var(t, d, def, vdef(&z, ty));
                    Exp { occ: Occ::Use, ..e("VarUsage") }
                }
            }
        }
        24 => {
            let mut f = tn(&za);
            f.dirs = vec![dir("skip", vec![("if".into(), Val::Var(z.clone()))])];
            put(t, d, vec![Sel::Field(f)]);
            if in_op && t.chance(1, 2) {
                let def = l.def;
                add_var(t, d, def, vdef(&z, Ty::Named("String".into(), true)));
                Exp { occ: Occ::Use, ..e("VarUsage") }
            } else {
                e("VarUndefined")
            }
        }
        25 => {
            let mut f = tn(&za);
            f.dirs = vec![dir("skip", vec![("if".into(), if t.chance(1, 2) { Val::Str(z.clone()) } else { Val::Enum(z.clone()) })])];
            put(t, d, vec![Sel::Field(f)]);
            Exp { named: false, ..e("Value") }
        }
        26 => {
            add_var(t, d, some_op, vdef(&z, Ty::Named("Int".into(), false)));
            e("VarUnused")
        }
        27 => {
            if t.chance(1, 2) {
                for _ in 0..copies {
                    add_var(t, d, some_op, vdef(&z, Ty::Named("Int".into(), false)));
                }
                Exp { occ: Occ::All, min: copies, also: &["VarUnused"], ..e("VarUniq") }
            } else {
                let ty = s.types.iter().filter(|x| x.is_composite()).map(|x| x.name.clone()).collect::<Vec<_>>();
                let n = t.choose(&ty).clone();
                add_var(t, d, some_op, vdef(&z, Ty::Named(n, false)));
                Exp { fwd: 2, also: &["VarUnused"], ..e("VarNotInput") }
            }
        }
        28 => {
            if !named_ops {
                return None;
            }
            if t.chance(1, 2) {
                for k in 0..copies {
                    d.defs.push(op(Some(&z), OpKind::Query, vec![Sel::Field(fld(&format!("b{k}"), "__typename"))]));
                }
                Exp { occ: Occ::All, min: copies, back: 1, ..e("OpNameUniq") }
            } else if d.ops().any(|o| o.name.is_none()) {
                return None;
            } else {
                let mut o = op(None, OpKind::Query, vec![Sel::Field(tn(&z))]);
                if let Def::Op(o) = &mut o {
                    o.shorthand = t.chance(1, 2);
                }
                d.defs.push(o);
                Exp { back: 1, named: false, ..e("LoneAnonymous") }
            }
        }
        29 => {
            if !named_ops {
                return None;
            }
            let missing: Vec<OpKind> = [OpKind::Mutation, OpKind::Subscription].into_iter().filter(|k| s.root(*k).is_none()).collect();
            if missing.is_empty() || (s.root(OpKind::Subscription).is_some() && t.chance(1, 2)) {
                s.root(OpKind::Subscription)?;
                d.defs.push(op(Some(&z), OpKind::Subscription, vec![Sel::Field(tn("b0")), Sel::Field(tn("b1"))]));
                Exp { fwd: 8, back: 1, named: false, ..e("SubscriptionRoot") }
            } else {
                let k = *t.choose(&missing);
                d.defs.push(op(Some(&z), k, vec![typename()]));
                Exp { back: 1, named: false, ..e("OpTypeUndefined") }
            }
        }
        _ => {
            let fs: Vec<&&FieldDef> = fields.iter().collect();
            if fs.is_empty() || !in_op {
                return None;
            }
            let f = *t.choose(&fs);
            let f = full(t, f, &z);
            put(t, d, vec![Sel::Field(f), Sel::Field(tn(&z))]);
            Exp { occ: Occ::Around, named: false, ..e("Merge") }
        }
    })
}

fn is(t: &Tok, s: &str) -> bool {
    matches!(&t.k, K::Name(n) | K::Var(n) | K::Str(n) if n == s)
}
/// byte ranges an error may start in
fn places(toks: &[Tok], x: &Exp) -> Vec<(usize, usize)> {
    let prev = |i: usize, p: &str| i > 0 && match &toks[i - 1].k {
        K::P(q) => *q == p,
        K::Name(n) => n == p,
        _ => false,
    };
    let idx: Vec<usize> = (0..toks.len()).filter(|i| is(&toks[*i], &x.sent)).collect();
    if x.occ == Occ::Around {
        let mut out = vec![];
        let mut open = vec![];
        for (i, t) in toks.iter().enumerate() {
            match t.k {
                K::P("{") => open.push(i),
                K::P("}") => {
                    open.pop();
                }
                _ if idx.contains(&i) => out.extend(open.iter().map(|o: &usize| (toks[*o].start, toks[*o].end))),
                _ => {}
            }
        }
        return out;
    }
    let idx: Vec<usize> = match x.occ {
        Occ::Spread => idx.into_iter().filter(|i| prev(*i, "...")).collect(),
        Occ::Def => idx.into_iter().filter(|i| prev(*i, "fragment")).collect(),
        Occ::Use => idx.into_iter().filter(|i| toks.get(*i + 1).map(|k| &k.k) != Some(&K::P(":"))).collect(),
        _ => idx,
    };
    idx.into_iter()
        .map(|i| {
            let end = if x.fwd == usize::MAX {
                let mut k = i;
                while k + 1 < toks.len() && toks[k].k != K::P("(") {
                    k += 1;
                }
                let mut depth = 0;
                while k + 1 < toks.len() {
                    match toks[k].k {
                        K::P("(") => depth += 1,
                        K::P(")") => depth -= 1,
                        _ => {}
                    }
                    if depth == 0 {
                        break;
                    }
                    k += 1;
                }
                k
            } else {
                (i + x.fwd).min(toks.len() - 1).saturating_sub(x.until)
            };
            (toks[i.saturating_sub(x.back)].start, toks[end].end)
        })
        .collect()
}

/// byte offset of a line and column
pub fn offset(src: &str, line: usize, col: usize) -> Option<usize> {
    let mut l = 1;
    let mut c = 1;
    let mut it = src.char_indices().peekable();
    while let Some((i, ch)) = it.next() {
        if (l, c) == (line, col) {
            return Some(i);
        }
        match ch {
            '\r' if it.peek().is_some_and(|x| x.1 == '\n') => c += 1,
            '\n' | '\r' => {
                l += 1;
                c = 1;
            }
            _ => c += 1,
        }
    }
    ((l, c) == (line, col)).then_some(src.len())
}

/// the report for people says the same as the one for programs
fn human(src: &str, e: bluejay_parser::Error, g: &[bluejay_parser::error::GraphQLError]) -> R {
    let message = e.message().to_string();
    let h = bluejay_parser::Error::format_errors(src, Some("zz.graphql"), [e]);
    ensure!(h.starts_with(&format!("Error: {message}\n")), "report for people", "{message:?} became\n{h}");
    if let [g] = g {
        if let [l] = &g.locations[..] {
            let want = format!("[zz.graphql:{}:{}]", l.line, l.col);
            // conflicts have no primary place, and their header says 1:1
            let conflict = message.starts_with("Anonymous operation") || message.starts_with("Cannot redefine") || message.starts_with("Multiple");
            ensure!(h.contains(&want) || conflict, "report for people", "{g:?} became\n{h}\n{src:?}");
        }
    }
    for x in g {
        ensure!(x.locations.is_empty() || h.contains(&*x.message), "report for people", "{x:?} is missing from\n{h}\n{src:?}");
    }
    Ok(())
}

struct Seen {
    class: &'static str,
    message: String,
    at: Vec<usize>,
}

fn exec_step(c: &mut Ctx, s: &Schema, rs: &RS<'_>) -> R {
    let mut d = gen_doc(&mut c.t, s, &DocCfg { budget: 25, max_depth: 3, weird_strings: false, ..Default::default() });
    let defs = d.defs.len();
    let mut exps = vec![];
    if c.faults_on {
        for i in 0..c.t.range(1, 4) {
            for _ in 0..4 {
                let before = d.clone();
                if let Some(x) = plant(&mut c.t, s, &mut d, defs, i) {
                    c.fault(x.class);
                    exps.push(x);
                    break;
                }
                d = before;
            }
        }
    }
    c.t.shuffle(&mut d.defs);
    let style = if c.t.chance(1, 2) { Style::Noisy } else { Style::Plain };
    let src = doc_src(&d, style, &mut c.t);
    c.input(&src);
    let Ok(toks) = lex(&src, false) else { return viol("harness", src) };
    let e = parse_valid(&src)?;
    c.eval();
    let odd = super::s10::odd_newlines(&src);
    let people = c.t.chance(1, 4) && !odd;
    let mut seen = vec![];
    let mut flat = vec![];
    {
        let cache = Cache::new(&e, rs);
        for er in errors(&e, rs, &cache) {
            let class = norm(class(&er));
            let pe: bluejay_parser::Error = er.into();
            let message = pe.message().to_string();
            let g = bluejay_parser::Error::into_graphql_errors(&src, [pe]);
            let mut at = vec![];
            for x in &g {
                for l in &x.locations {
                    match offset(&src, l.line, l.col) {
                        Some(o) => at.push(o),
                        None if odd => at.push(usize::MAX),
                        None => return viol("location", format!("{class}: {l:?} is no place in the document\n{src:?}")),
                    }
                }
            }
            flat.extend(g);
            seen.push(Seen { class, message, at });
        }
        if people {
            for (x, y) in errors(&e, rs, &cache).into_iter().zip(errors(&e, rs, &cache)) {
                human(&src, x.into(), &bluejay_parser::Error::into_graphql_errors(&src, [y]))?;
            }
        }
        // the order of what is reported is the validator's own business; that it is the same is not
        let all = bluejay_parser::Error::into_graphql_errors(&src, errors(&e, rs, &cache));
        ensure!(all == flat, "report of several errors", "reported together: {all:?}\none by one: {flat:?}\n{src:?}");
    }
    if odd {
        return Ok(());
    }
    if exps.is_empty() {
        ensure!(seen.is_empty(), "clean request refused", "{:?}\n{src}", seen[0].message);
        return Ok(());
    }
    c.nontrivial = true;
    let list = |v: &[Seen]| v.iter().map(|x| format!("  {} {:?} at {:?}", x.class, x.message, x.at.iter().map(|o| (o, src.get(*o..).unwrap_or("").chars().take(24).collect::<String>())).collect::<Vec<_>>())).collect::<Vec<_>>().join("\n");
    for x in &exps {
        let p = places(&toks, x);
        ensure!(!p.is_empty(), "harness", "{x:?} {src}");
        let here = |o: usize| p.iter().any(|r| r.0 <= o && o < r.1);
        let hit = seen.iter().filter(|y| y.class == x.class).find(|y| {
            let mut v: Vec<usize> = y.at.iter().copied().filter(|o| here(*o)).collect();
            v.sort();
            v.dedup();
            v.len() >= x.min && (x.min == 1 || v.len() == y.at.len())
        });
        let Some(hit) = hit else {
            let key = if seen.iter().any(|y| y.class == x.class) { "pointed elsewhere" } else { "not reported" };
            return viol(format!("{key}: {}", x.class), format!("planted {x:?} at {p:?}\nreported:\n{}\n{src}", list(&seen)));
        };
        ensure!(!x.named || hit.message.contains(&x.sent), format!("not named: {}", x.class), "planted {x:?}, message {:?}\n{src}", hit.message);
    }
    for y in &seen {
        // what is planted into a subscription's root makes it several fields
        if y.class == "SubscriptionRoot" || !exps.iter().any(|x| x.class == y.class) {
            continue;
        }
        let fine = y.at.iter().all(|o| {
            exps.iter().any(|x| {
                (x.class == y.class && places(&toks, x).iter().any(|r| r.0 <= *o && *o < r.1))
                    || (x.also.contains(&y.class) && toks.iter().enumerate().any(|(i, k)| (is(k, &x.sent) || is(k, &x.sent.replace("zz", "zza"))) && toks[i.saturating_sub(2)].start <= *o && *o < k.end))
            })
        });
        ensure!(fine, format!("points at what is right: {}", y.class), "planted {exps:?}\nreported:\n{}\n{src}", list(&seen));
    }
    Ok(())
}

/// where a token of a schema document stands
#[derive(Debug, Clone, Copy, PartialEq)]
enum Role {
    TypeDef,
    DirDef,
    Schema,
    Root,
    Iface,
    Member,
    Output,
    Input,
    /// an enum value or input field being defined
    Item,
    DirRef,
    SchemaBody,
    Other,
}
/// role of every token, and the type it is part of
fn roles(toks: &[Tok]) -> Vec<(Role, usize)> {
    let kws = ["type", "enum", "input", "interface", "union", "scalar", "directive", "schema"];
    let name = |i: usize| match toks.get(i).map(|t| &t.k) {
        Some(K::Name(n)) => n.as_str(),
        _ => "",
    };
    let p = |i: usize| match toks.get(i).map(|t| &t.k) {
        Some(K::P(q)) => *q,
        _ => "",
    };
    let (mut kw, mut head, mut brace, mut paren) = ("", 0, 0, 0);
    // square and curly brackets of values, parentheses of directives
    let mut value = 0;
    let mut out = vec![];
    for i in 0..toks.len() {
        let pp = if i > 0 { p(i - 1) } else { "" };
        let pn = if i > 0 { name(i - 1) } else { "" };
        let top = brace == 0 && paren == 0 && value == 0;
        let mut r = Role::Other;
        if value > 0 {
            match p(i) {
                "(" => value += 1,
                ")" => value -= 1,
                _ => {}
            }
            out.push((r, head));
            continue;
        }
        if pp == "@" && kw != "directive" || pp == "@" && !top {
            out.push((Role::DirRef, head));
            if p(i + 1) == "(" {
                // counted from the parenthesis on
                value = 0;
            }
            continue;
        }
        if p(i) == "(" && i > 1 && p(i - 2) == "@" && !(kw == "directive" && top) {
            value = 1;
            out.push((r, head));
            continue;
        }
        match p(i) {
            "{" => {
                brace += 1;
                if kw == "schema" {
                    r = Role::SchemaBody;
                }
            }
            "}" => brace -= 1,
            "(" => paren += 1,
            ")" => paren -= 1,
            _ => {}
        }
        if top && kws.contains(&name(i)) && !["@", "=", "|", "&"].contains(&pp) && !(i > 0 && i - 1 == head && kws.contains(&pn)) && (pn != "implements" || i == head + 2) {
            kw = kws[kws.iter().position(|k| *k == name(i)).unwrap()];
            head = i;
            if kw == "schema" {
                r = Role::Schema;
            }
        } else if top && !name(i).is_empty() && kw != "schema" && kw != "directive" && i == head + 1 {
            r = Role::TypeDef;
        } else if top && kw == "directive" && i == head + 2 {
            r = Role::DirDef;
        } else if top && !name(i).is_empty() && (kw == "type" || kw == "interface") && (name(i) != "implements" || i > head + 2) {
            r = Role::Iface;
        } else if top && !name(i).is_empty() && kw == "union" {
            r = Role::Member;
        } else if !name(i).is_empty() && !top {
            let ty = pp == ":" || pp == "[";
            r = match (kw, ty) {
                ("schema", true) => Role::Root,
                ("type" | "interface", true) if paren == 0 => Role::Output,
                (_, true) => Role::Input,
                ("enum", _) => Role::Item,
                ("input", _) if p(i + 1) == ":" => Role::Item,
                _ => Role::Other,
            };
        }
        // what follows `=` inside a definition is a value, up to the next thing
        if pp == "=" && !top {
            r = Role::Other;
        }
        out.push((r, head));
    }
    out
}

fn sdl_step(c: &mut Ctx) -> R {
    let descs = c.t.chance(1, 2);
    let schema_dirs = c.t.chance(1, 2);
    let s = gen_schema(&mut c.t, &SchemaCfg { descs, schema_dirs, ..Default::default() });
    let mut d = sdl_of(&s);
    for _ in 0..if c.faults_on { c.t.range(1, 4) } else { 0 } {
        let m = damage(&mut c.t, &mut d);
        c.fault("schema_defect");
        c.note(|| format!("defect: {m}"));
    }
    let mut src = render(&d, Some(&mut c.t));
    match c.t.pick(4) {
        0 => src = src.replace('\n', "\r\n"),
        1 => src = format!("# é🔥\n\n{}", src.replace('\n', "\r")),
        _ => {}
    }
    c.input(&src);
    let Ok(sdl) = refparse::parse_sdl(&src) else { return viol("harness", src) };
    let Ok(toks) = lex(&src, false) else { return viol("harness", src) };
    if super::s10::odd_newlines(&src) {
        return Ok(());
    }
    c.eval();
    let mut want = judge(&sdl);
    let doc: DefinitionDocument<DefaultContext> = match DefinitionDocument::parse(src.as_str()) {
        Ok(d) => d,
        Err(e) => return viol("well-formed document rejected", format!("{}\n{src}", parser_errs(&src, e))),
    };
    let report = |get: &dyn Fn() -> Vec<bluejay_parser::Error>| -> R<Vec<Seen>> {
        let mut seen = vec![];
        let mut flat = vec![];
        for e in get() {
            let message = e.message().to_string();
            let g = bluejay_parser::Error::into_graphql_errors(&src, [e]);
            let mut at = vec![];
            for x in &g {
                for l in &x.locations {
                    match offset(&src, l.line, l.col) {
                        Some(o) => at.push(o),
                        None => return viol("location", format!("{message}: {l:?} is no place in the document\n{src:?}")),
                    }
                }
            }
            flat.extend(g);
            seen.push(Seen { class: class_of(&message).0, message, at });
        }
        if get().len() == 1 {
            human(&src, get().remove(0), &flat)?;
        }
        let key = |g: Vec<bluejay_parser::error::GraphQLError>| {
            let mut v: Vec<String> = g.iter().map(|x| format!("{x:?}")).collect();
            v.sort();
            v
        };
        let all = key(bluejay_parser::Error::into_graphql_errors(&src, get()));
        let flat = key(flat);
        ensure!(all == flat, "report of several errors", "reported together: {all:?}\none by one: {flat:?}\n{src:?}");
        Ok(seen)
    };
    let mut seen = report(&|| SchemaDefinition::try_from(&doc).err().unwrap_or_default().into_iter().map(Into::into).collect())?;
    if seen.is_empty() {
        want.extend(judge_rules(&sdl));
        if let Ok(s) = SchemaDefinition::try_from(&doc) {
            seen = report(&|| BuiltinRulesValidator::validate(&s).map(Into::into).collect())?;
        }
    }
    let list = |v: &[Seen]| v.iter().map(|x| format!("  {:?} at {:?}", x.message, x.at.iter().map(|o| (o, src.get(*o..).unwrap_or("").chars().take(24).collect::<String>())).collect::<Vec<_>>())).collect::<Vec<_>>().join("\n");
    let rs = roles(&toks);
    let at_tok = |o: usize| toks.iter().position(|t| t.start == o);
    let explicit = !sdl.schemas.is_empty();
    let mut groups = want.clone();
    groups.dedup();
    for w in &groups {
        c.nontrivial = true;
        c.probe(w.0);
        let n = want.iter().filter(|x| *x == w).count();
        let mine: Vec<&Seen> = seen.iter().filter(|x| class_of(&x.message) == *w).collect();
        ensure!(!mine.is_empty(), format!("not reported: {}", w.0), "planted {w:?}\nreported:\n{}\n{src}", list(&seen));
        let of = |role: Role| -> Vec<usize> { (0..toks.len()).filter(|i| rs[*i].0 == role && is(&toks[*i], &w.1)).map(|i| toks[i].start).collect() };
        let mut at: Vec<usize> = mine.iter().flat_map(|x| x.at.iter().copied()).collect();
        at.sort();
        at.dedup();
        let bad = |key: &str| viol(format!("{key}: {}", w.0), format!("planted {w:?}\nreported:\n{}\n{src}", list(&seen)));
        // (places allowed, all of them wanted)
        let (ok, all) = match w.0 {
            "type twice" | "builtin type" => (of(Role::TypeDef), true),
            "directive twice" => (of(Role::DirDef), true),
            "schema twice" => ((0..toks.len()).filter(|i| rs[*i].0 == Role::Schema).map(|i| toks[i].start).collect(), true),
            "root twice" => ((2..toks.len()).filter(|i| rs[*i].0 == Role::Root && is(&toks[*i - 2], &w.1)).map(|i| toks[i].start).collect(), true),
            "no type" => ([Role::Root, Role::Iface, Role::Member, Role::Output, Role::Input].iter().flat_map(|r| of(*r)).collect(), false),
            "not input" => (of(Role::Input), false),
            "not output" => (of(Role::Output), false),
            "not interface" => (of(Role::Iface), false),
            "not object" if explicit => ([of(Role::Member), of(Role::Root)].concat(), false),
            "not object" => ([of(Role::Member), of(Role::TypeDef)].concat(), false),
            "no directive" => {
                let v = of(Role::DirRef);
                // the `@` or the name
                at = at.iter().map(|o| match at_tok(*o) {
                    Some(i) if toks[i].k == K::P("@") => toks.get(i + 1).map_or(*o, |t| t.start),
                    _ => *o,
                }).collect();
                (v, false)
            }
            "ring" => (of(Role::TypeDef), true),
            "enum value twice" | "input field twice" => {
                for x in &mine {
                    let mut v = x.at.clone();
                    v.sort();
                    v.dedup();
                    // of one definition, and every one there
                    let Some(head) = v.first().and_then(|o| at_tok(*o)).map(|i| rs[i].1) else { return bad("pointed nowhere") };
                    let items: Vec<usize> = (0..toks.len()).filter(|i| rs[*i] == (Role::Item, head) && is(&toks[*i], &w.1)).map(|i| toks[i].start).collect();
                    if v != items || items.len() < 2 {
                        return bad("pointed elsewhere");
                    }
                }
                let heads: std::collections::BTreeSet<usize> = at.iter().filter_map(|o| at_tok(*o)).map(|i| rs[i].1).collect();
                if heads.len() != n {
                    return bad("one of several pointed at");
                }
                continue;
            }
            "no query" if explicit => ((0..toks.len()).filter(|i| rs[*i].0 == Role::SchemaBody).map(|i| toks[i].start).collect(), true),
            _ => {
                if !at.is_empty() {
                    return bad("pointed somewhere");
                }
                continue;
            }
        };
        let mut ok: Vec<usize> = ok;
        ok.sort();
        ok.dedup();
        if at.iter().any(|o| !ok.contains(o)) {
            return bad("pointed elsewhere");
        }
        // as many references as reports, each at its own
        if if all { at != ok } else { at.len() != n || mine.iter().any(|x| x.at.is_empty()) } {
            return bad("one of several pointed at");
        }
    }
    Ok(())
}

fn run(c: &mut Ctx) -> R {
    if c.t.chance(1, 4) {
        for _ in 0..c.t.range(2, 6) {
            c.step(0, "publish");
            sdl_step(c)?;
        }
        return Ok(());
    }
    let s = gen_schema(&mut c.t, &SchemaCfg::default());
    let ssrc = schema_src(&s, Style::Plain, &mut c.t);
    c.input(&ssrc);
    with_schema(&ssrc, |rs| {
        let n = c.t.range(2, 4);
        for _ in 0..c.t.range(n, 3 * n) {
            let who = c.t.pick(n);
            c.step(who, "request");
            exec_step(c, &s, rs)?;
        }
        Ok(())
    })
}
