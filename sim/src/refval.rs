//! Reference validator: the validation section of the GraphQL specification, written against
//! the harness's own document model.
use crate::gen::{dirs_vars, spreads, used_frags, val_vars, var_usable};
use crate::model::*;
use std::collections::{BTreeMap, BTreeSet};

thread_local!(static STRICT: std::cell::Cell<u64> = const { std::cell::Cell::new(0) });
pub struct Strict;
impl Drop for Strict {
    fn drop(&mut self) {
        STRICT.with(|s| s.set(0));
    }
}
/// while the guard lives, custom scalars refuse booleans when `on` (a tenant's policy)
pub fn strict(on: bool) -> Strict {
    STRICT.with(|s| s.set(on as u64));
    Strict
}
/// while the guard lives, the schema's own scalars follow `policy`: which kinds of value each accepts
/// is a function of the policy and the scalar's name; 0 accepts everything
pub fn scalar_policy(policy: u32) -> Strict {
    STRICT.with(|s| s.set(if policy == 0 { 0 } else { policy as u64 + 1 }));
    Strict
}
#[derive(Clone, Copy)]
pub enum Vk {
    Bool,
    Int,
    Float,
    Str,
    Enum,
    List,
    Obj,
    Other,
}
/// what the schema's own scalar `name` says to a value of kind `k`; asked by the real schema under
/// simulation and by the reference
pub fn own_scalar_ok(name: &str, k: Vk) -> bool {
    match STRICT.with(|s| s.get()) {
        0 | 1 => true,
        _ if matches!(k, Vk::Other) => true,
        p => crate::tape::mix(p ^ crate::tape::fnv(k as u64, name.as_bytes())) % 3 != 0,
    }
}
pub fn scalar_ok(name: &str, k: Vk) -> bool {
    if STRICT.with(|s| s.get()) == 1 && matches!(k, Vk::Bool) {
        return false;
    }
    own_scalar_ok(name, k)
}
fn vk(v: &Val) -> Vk {
    match v {
        Val::Bool(_) => Vk::Bool,
        Val::Int(_) => Vk::Int,
        Val::Float(_) => Vk::Float,
        Val::Str(_) => Vk::Str,
        Val::Enum(_) => Vk::Enum,
        Val::List(_) => Vk::List,
        Val::Obj(_) => Vk::Obj,
        Val::Null | Val::Var(_) => Vk::Other,
    }
}

pub type Classes = BTreeSet<&'static str>;

/// Objects and arguments are maps: order does not matter, and where a key is
/// given twice (which custom scalars put up with) the last one is meant.
pub fn val_eq(a: &Val, b: &Val) -> bool {
    match (a, b) {
        (Val::List(x), Val::List(y)) => x.len() == y.len() && x.iter().zip(y).all(|(a, b)| val_eq(a, b)),
        (Val::Obj(x), Val::Obj(y)) => args_eq(x, y),
        _ => a == b,
    }
}
pub fn args_eq(a: &[(String, Val)], b: &[(String, Val)]) -> bool {
    let last = |m: &[(String, Val)]| m.iter().map(|(k, v)| (k.clone(), v.clone())).collect::<std::collections::BTreeMap<_, _>>();
    let (x, y) = (last(a), last(b));
    x.len() == y.len() && x.iter().zip(&y).all(|((k, v), (k2, v2))| k == k2 && val_eq(v, v2))
}

// ------------------------------------------------------------- field merging

#[derive(Clone)]
struct FC<'a> {
    path: Vec<usize>,
    parent: String,
    f: &'a FieldSel,
    ty: Ty,
}

struct Merge<'a> {
    s: &'a Schema,
    d: &'a Doc,
    fuel: usize,
}

type Conflict = (&'static str, Vec<usize>, Vec<usize>);

impl<'a> Merge<'a> {
    fn collect(&self, parent: &str, sels: &'a [Sel], path: &[usize], seen: &mut Vec<String>, out: &mut Vec<FC<'a>>) {
        for (i, s) in sels.iter().enumerate() {
            let mut p = path.to_vec();
            p.push(i);
            match s {
                Sel::Field(f) => {
                    if let Some(ty) = field_ty(self.s, parent, &f.name) {
                        if !out.iter().any(|x| x.path == p && x.parent == parent) {
                            out.push(FC { path: p, parent: parent.to_string(), f, ty });
                        }
                    }
                }
                Sel::Inline(on, _, sub) => {
                    let n = on.clone().unwrap_or(parent.to_string());
                    if !self.s.is_composite(&n) {
                        continue;
                    }
                    self.collect(&n, sub, &p, seen, out);
                }
                Sel::Spread(n, _) => {
                    if seen.contains(n) {
                        continue;
                    }
                    seen.push(n.clone());
                    if let Some((di, fr)) = self.d.defs.iter().enumerate().find_map(|(i, d)| match d {
                        Def::Frag(f) if f.name == *n && self.s.is_composite(&f.on) => Some((i, f)),
                        _ => None,
                    }) {
                        self.collect(&fr.on, &fr.sels, &[di], seen, out);
                    }
                }
            }
        }
    }

    fn can_merge(&mut self, set: &[FC<'a>], depth: usize) -> Option<Conflict> {
        if depth > 12 {
            return None;
        }
        let mut groups: BTreeMap<&str, Vec<&FC<'a>>> = BTreeMap::new();
        for f in set {
            groups.entry(f.f.key()).or_default().push(f);
        }
        for g in groups.values() {
            for i in 0..g.len() {
                for j in i + 1..g.len() {
                    if self.fuel == 0 {
                        return None;
                    }
                    self.fuel -= 1;
                    let (a, b) = (g[i], g[j]);
                    if let Some(c) = self.same_shape(a, b, depth) {
                        return Some(c);
                    }
                    let obj = |n: &str| self.s.ty(n).map(|t| t.is_object()).unwrap_or(false);
                    if a.parent == b.parent || !obj(&a.parent) || !obj(&b.parent) {
                        if a.f.name != b.f.name {
                            return Some(("MergeNames", a.path.clone(), b.path.clone()));
                        }
                        if !args_eq(&a.f.args, &b.f.args) {
                            return Some(("MergeArgs", a.path.clone(), b.path.clone()));
                        }
                        let m = self.merged(a, b);
                        if let Some(c) = self.can_merge(&m, depth + 1) {
                            return Some(c);
                        }
                    }
                }
            }
        }
        None
    }
    fn merged(&self, a: &FC<'a>, b: &FC<'a>) -> Vec<FC<'a>> {
        let mut out = vec![];
        let mut seen = vec![];
        for x in [a, b] {
            self.collect(x.ty.base(), &x.f.sels, &x.path, &mut seen, &mut out);
        }
        out
    }
    fn same_shape(&mut self, a: &FC<'a>, b: &FC<'a>, depth: usize) -> Option<Conflict> {
        let (mut ta, mut tb) = (&a.ty, &b.ty);
        let bad = || Some(("MergeTypes", a.path.clone(), b.path.clone()));
        loop {
            if ta.required() != tb.required() {
                return bad();
            }
            match (ta, tb) {
                (Ty::List(x, _), Ty::List(y, _)) => {
                    ta = x;
                    tb = y;
                }
                (Ty::Named(x, _), Ty::Named(y, _)) => {
                    if (self.s.is_leaf(x) || self.s.is_leaf(y)) && x != y {
                        return bad();
                    }
                    break;
                }
                _ => return bad(),
            }
        }
        if depth > 12 {
            return None;
        }
        let m = self.merged(a, b);
        let mut groups: BTreeMap<&str, Vec<&FC<'a>>> = BTreeMap::new();
        for f in &m {
            groups.entry(f.f.key()).or_default().push(f);
        }
        for g in groups.values() {
            for i in 0..g.len() {
                for j in i + 1..g.len() {
                    if self.fuel == 0 {
                        return None;
                    }
                    self.fuel -= 1;
                    if let Some(c) = self.same_shape(g[i], g[j], depth + 1) {
                        return Some(c);
                    }
                }
            }
        }
        None
    }
    fn nested(&mut self, parent: &str, sels: &'a [Sel], path: &[usize]) -> Option<Conflict> {
        let mut set = vec![];
        self.collect(parent, sels, path, &mut vec![], &mut set);
        if let Some(c) = self.can_merge(&set, 0) {
            return Some(c);
        }
        self.deeper(parent, sels, path)
    }
    fn deeper(&mut self, parent: &str, sels: &'a [Sel], path: &[usize]) -> Option<Conflict> {
        for (i, s) in sels.iter().enumerate() {
            let mut p = path.to_vec();
            p.push(i);
            match s {
                Sel::Field(f) if !f.sels.is_empty() => {
                    if let Some(ty) = field_ty(self.s, parent, &f.name) {
                        if let Some(c) = self.nested(ty.base(), &f.sels, &p) {
                            return Some(c);
                        }
                    }
                }
                Sel::Inline(on, _, sub) => {
                    let n = on.clone().unwrap_or(parent.to_string());
                    if !self.s.is_composite(&n) {
                        continue;
                    }
                    if let Some(c) = self.nested(&n, sub, &p) {
                        return Some(c);
                    }
                }
                _ => {}
            }
        }
        None
    }
}

fn field_ty(s: &Schema, parent: &str, n: &str) -> Option<Ty> {
    s.field_ty(parent, n)
}

pub fn conflict(s: &Schema, d: &Doc) -> Option<Conflict> {
    let mut m = Merge { s, d, fuel: 60_000 };
    for (i, def) in d.defs.iter().enumerate() {
        let (parent, sels) = match def {
            Def::Op(o) => match s.root(o.kind) {
                Some(r) => (r.to_string(), &o.sels),
                None => continue,
            },
            Def::Frag(f) => (f.on.clone(), &f.sels),
        };
        if let Some(c) = m.nested(&parent, sels, &[i]) {
            return Some(c);
        }
    }
    None
}

pub fn first_conflict(s: &Schema, d: &Doc) -> Option<(Vec<usize>, Vec<usize>)> {
    conflict(s, d).map(|(_, a, b)| (a, b))
}

// ------------------------------------------------------------- full validation

/// Is the literal acceptable for `ty`? Variables are accepted anywhere (checked by usage rules).
pub fn val_ok(s: &Schema, ty: &Ty, v: &Val, implicit: bool) -> bool {
    if let Val::Var(_) = v {
        return true;
    }
    if *v == Val::Null {
        return !ty.required();
    }
    match ty {
        Ty::List(i, _) => match v {
            Val::List(l) => l.iter().all(|x| val_ok(s, i, x, false)),
            // CoerceList: a non-list value is coerced to a list of size one, also recursively
            x => implicit && val_ok(s, i, x, true),
        },
        Ty::Named(n, _) => match n.as_str() {
            "Int" => matches!(v, Val::Int(_)),
            "Float" => matches!(v, Val::Int(_) | Val::Float(_)),
            "String" => matches!(v, Val::Str(_)),
            "Boolean" => matches!(v, Val::Bool(_)),
            "ID" => matches!(v, Val::Int(_) | Val::Str(_)),
            _ => match s.ty(n).map(|t| &t.kind) {
                Some(Kind::Scalar) => scalar_ok(n, vk(v)),
                Some(Kind::Enum(vals)) => matches!(v, Val::Enum(e) if vals.iter().any(|x| x.name == *e)),
                Some(Kind::Input(fs)) => {
                    let Val::Obj(o) = v else { return false };
                    let mut names: Vec<&String> = o.iter().map(|x| &x.0).collect();
                    names.sort();
                    if names.windows(2).any(|w| w[0] == w[1]) {
                        return false;
                    }
                    if !o.iter().all(|(k, v)| fs.iter().any(|f| f.name == *k && val_ok(s, &f.ty, v, true))) {
                        return false;
                    }
                    if !fs.iter().all(|f| !f.required() || o.iter().any(|x| x.0 == f.name)) {
                        return false;
                    }
                    if s.ty(n).unwrap().one_of() && (o.len() != 1 || o[0].1 == Val::Null) {
                        return false;
                    }
                    true
                }
                _ => true,
            },
        },
    }
}

struct V<'a> {
    s: &'a Schema,
    d: &'a Doc,
    out: Classes,
}

fn dup<'x>(it: impl Iterator<Item = &'x String>) -> bool {
    let mut v: Vec<&String> = it.collect();
    v.sort();
    v.windows(2).any(|w| w[0] == w[1])
}

pub fn builtin_dirs() -> Vec<DirDef> {
    let a = |n: &str, ty: Ty, d: Option<Val>| InVal { name: n.into(), desc: None, ty, default: d, dirs: vec![] };
    let d = |n: &str, args, locs: &[&str]| DirDef { name: n.into(), desc: None, args, repeatable: false, locs: locs.iter().map(|x| x.to_string()).collect() };
    let b = Ty::Named("Boolean".into(), true);
    vec![
        d("skip", vec![a("if", b.clone(), None)], &["FIELD", "FRAGMENT_SPREAD", "INLINE_FRAGMENT"]),
        d("include", vec![a("if", b, None)], &["FIELD", "FRAGMENT_SPREAD", "INLINE_FRAGMENT"]),
        d("deprecated", vec![a("reason", Ty::named("String"), Some(Val::Str("No longer supported".into())))], &["FIELD_DEFINITION", "ARGUMENT_DEFINITION", "INPUT_FIELD_DEFINITION", "ENUM_VALUE"]),
        d("specifiedBy", vec![a("url", Ty::Named("String".into(), true), None)], &["SCALAR"]),
        d("oneOf", vec![], &["INPUT_OBJECT"]),
    ]
}
pub fn dir_def(s: &Schema, n: &str) -> Option<DirDef> {
    s.dir(n).cloned().or_else(|| builtin_dirs().into_iter().find(|d| d.name == n))
}

pub fn op_loc(k: OpKind) -> &'static str {
    match k {
        OpKind::Query => "QUERY",
        OpKind::Mutation => "MUTATION",
        OpKind::Subscription => "SUBSCRIPTION",
    }
}

impl<'a> V<'a> {
    fn e(&mut self, c: &'static str) {
        self.out.insert(c);
    }
    fn args(&mut self, defs: &[InVal], args: &[(String, Val)], field: bool) {
        if dup(args.iter().map(|a| &a.0)) {
            self.e("ArgUniq");
        }
        for (n, v) in args {
            match defs.iter().find(|d| d.name == *n) {
                None => self.e(if field { "ArgUnknownField" } else { "ArgUnknownDir" }),
                Some(d) => {
                    if !val_ok(self.s, &d.ty, v, true) {
                        self.e("Value");
                    }
                }
            }
        }
        for d in defs {
            if d.required() && !args.iter().any(|(n, v)| *n == d.name && *v != Val::Null) {
                // an explicit null for a required argument is a value error; absence a missing one
                if !args.iter().any(|(n, _)| *n == d.name) {
                    self.e(if field { "ArgMissingField" } else { "ArgMissingDir" });
                }
            }
        }
    }
    fn dirs(&mut self, dirs: &[Dir], loc: &str) {
        for d in dirs {
            match dir_def(self.s, &d.name) {
                None => self.e("DirUnknown"),
                Some(def) => {
                    if !def.locs.iter().any(|l| l == loc) {
                        self.e("DirLoc");
                    }
                    if !def.repeatable && dirs.iter().filter(|x| x.name == d.name).count() > 1 {
                        self.e("DirUniq");
                    }
                    self.args(&def.args, &d.args, false);
                }
            }
        }
    }
    fn spread_ok(&self, parent: &str, on: &str) -> bool {
        self.s.overlap(parent, on)
    }
    fn sels(&mut self, parent: &str, sels: &'a [Sel]) {
        for s in sels {
            match s {
                Sel::Field(f) => {
                    let ty = field_ty(self.s, parent, &f.name);
                    let Some(ty) = ty else {
                        self.e("FieldUnknown");
                        continue;
                    };
                    self.dirs(&f.dirs, "FIELD");
                    let defs: Vec<InVal> = if f.name == "__type" && parent == self.s.query {
                        vec![InVal { name: "name".into(), desc: None, ty: Ty::Named("String".into(), true), default: None, dirs: vec![] }]
                    } else {
                        self.s.field(parent, &f.name).map(|d| d.args.clone()).unwrap_or_default()
                    };
                    self.args(&defs, &f.args, true);
                    if self.s.is_leaf(ty.base()) {
                        if !f.sels.is_empty() {
                            self.e("LeafSel");
                        }
                    } else if f.sels.is_empty() {
                        self.e("NonLeafNoSel");
                    } else {
                        self.sels(ty.base(), &f.sels);
                    }
                }
                Sel::Inline(on, d, sub) => {
                    self.dirs(d, "INLINE_FRAGMENT");
                    match on {
                        None => self.sels(parent, sub),
                        Some(n) => match self.s.ty(n) {
                            None => {
                                if is_builtin_scalar(n) {
                                    self.e("InlineNotComposite");
                                } else {
                                    self.e("InlineNoType");
                                }
                            }
                            Some(td) if !td.is_composite() => self.e("InlineNotComposite"),
                            Some(_) => {
                                if !self.spread_ok(parent, n) {
                                    self.e("InlineImpossible");
                                }
                                self.sels(n, sub);
                            }
                        },
                    }
                }
                Sel::Spread(n, d) => {
                    self.dirs(d, "FRAGMENT_SPREAD");
                    match self.d.frag(n) {
                        None => self.e("SpreadUndefined"),
                        Some(fr) => {
                            if self.s.is_composite(&fr.on) && !self.spread_ok(parent, &fr.on) {
                                self.e("SpreadImpossible");
                            }
                        }
                    }
                }
            }
        }
    }

    /// all (variable, location type, location has default) usages of an operation
    fn usages(&self, parent: &str, sels: &'a [Sel], seen: &mut Vec<String>, out: &mut Vec<(String, Option<(Ty, bool)>)>) {
        for s in sels {
            match s {
                Sel::Field(f) => {
                    self.dir_usages(&f.dirs, out);
                    let fd = self.s.field(parent, &f.name);
                    for (n, v) in &f.args {
                        match fd.and_then(|d| d.args.iter().find(|a| a.name == *n)) {
                            Some(a) => self.val_usages(v, &a.ty, a.default.is_some(), out),
                            None => untyped(v, out),
                        }
                    }
                    if let Some(ty) = field_ty(self.s, parent, &f.name) {
                        self.usages(ty.base(), &f.sels, seen, out);
                    }
                }
                Sel::Inline(on, d, sub) => {
                    self.dir_usages(d, out);
                    let p = on.clone().unwrap_or(parent.to_string());
                    self.usages(&p, sub, seen, out);
                }
                Sel::Spread(n, d) => {
                    self.dir_usages(d, out);
                    if !seen.contains(n) {
                        seen.push(n.clone());
                        if let Some(fr) = self.d.frag(n) {
                            self.dir_usages(&fr.dirs, out);
                            self.usages(&fr.on, &fr.sels, seen, out);
                        }
                    }
                }
            }
        }
    }
    fn dir_usages(&self, d: &[Dir], out: &mut Vec<(String, Option<(Ty, bool)>)>) {
        for d in d {
            let def = dir_def(self.s, &d.name);
            for (n, v) in &d.args {
                match def.as_ref().and_then(|x| x.args.iter().find(|a| a.name == *n)) {
                    Some(a) => self.val_usages(v, &a.ty, a.default.is_some(), out),
                    None => untyped(v, out),
                }
            }
        }
    }
    fn val_usages(&self, v: &Val, ty: &Ty, has_default: bool, out: &mut Vec<(String, Option<(Ty, bool)>)>) {
        match v {
            Val::Var(n) => out.push((n.clone(), Some((ty.clone(), has_default)))),
            Val::List(l) => match ty {
                Ty::List(i, _) => l.iter().for_each(|x| self.val_usages(x, i, false, out)),
                _ => l.iter().for_each(|x| untyped(x, out)),
            },
            Val::Obj(o) => match self.s.ty(ty.base()).map(|t| &t.kind) {
                Some(Kind::Input(fs)) => {
                    for (k, x) in o {
                        match fs.iter().find(|f| f.name == *k) {
                            Some(f) => self.val_usages(x, &f.ty, f.default.is_some(), out),
                            None => untyped(x, out),
                        }
                    }
                }
                _ => o.iter().for_each(|(_, x)| untyped(x, out)),
            },
            _ => {}
        }
    }
}

fn untyped(v: &Val, out: &mut Vec<(String, Option<(Ty, bool)>)>) {
    let mut n = vec![];
    val_vars(v, &mut n);
    out.extend(n.into_iter().map(|x| (x, None)));
}

/// number of root fields an operation selects, following fragments (None: unresolvable)
fn root_fields<'a>(d: &'a Doc, sels: &'a [Sel], seen: &mut Vec<String>, out: &mut BTreeSet<String>) {
    for s in sels {
        match s {
            Sel::Field(f) => {
                out.insert(f.key().to_string());
            }
            Sel::Inline(_, _, x) => root_fields(d, x, seen, out),
            Sel::Spread(n, _) => {
                if !seen.contains(n) {
                    seen.push(n.clone());
                    if let Some(f) = d.frag(n) {
                        root_fields(d, &f.sels, seen, out);
                    }
                }
            }
        }
    }
}

pub fn validate(s: &Schema, d: &Doc) -> Classes {
    let mut v = V { s, d, out: Classes::new() };
    // operations
    if dup(d.ops().filter_map(|o| o.name.as_ref())) {
        v.e("OpNameUniq");
    }
    let n_ops = d.ops().count();
    if n_ops > 1 && d.ops().any(|o| o.name.is_none()) {
        v.e("LoneAnonymous");
    }
    for o in d.ops() {
        v.dirs(&o.dirs, op_loc(o.kind));
        match s.root(o.kind) {
            None => v.e("OpTypeUndefined"),
            Some(r) => {
                let r = r.to_string();
                v.sels(&r, &o.sels);
            }
        }
        if o.kind == OpKind::Subscription {
            let mut f = BTreeSet::new();
            root_fields(d, &o.sels, &mut vec![], &mut f);
            if f.len() > 1 {
                v.e("SubscriptionRoot");
            }
        }
        if dup(o.vars.iter().map(|x| &x.name)) {
            v.e("VarUniq");
        }
        for vd in &o.vars {
            v.dirs(&vd.dirs, "VARIABLE_DEFINITION");
            if !s.is_input_ty(vd.ty.base()) {
                v.e("VarNotInput");
            } else if let Some(def) = &vd.default {
                if !val_ok(s, &vd.ty, def, true) {
                    v.e("Value");
                }
            }
        }
        let mut us = vec![];
        v.dir_usages(&o.dirs, &mut us);
        if let Some(r) = s.root(o.kind) {
            let r = r.to_string();
            let vv = V { s, d, out: Classes::new() };
            vv.usages(&r, &o.sels, &mut vec![], &mut us);
        }
        for (n, loc) in &us {
            match o.vars.iter().find(|x| x.name == *n) {
                None => v.e("VarUndefined"),
                Some(vd) => {
                    if let Some((ty, def)) = loc {
                        if s.is_input_ty(vd.ty.base()) && !var_usable(&vd.ty, vd.default.as_ref(), ty, *def) {
                            v.e("VarUsage");
                        }
                    }
                }
            }
        }
        for vd in &o.vars {
            if !us.iter().any(|u| u.0 == vd.name) {
                v.e("VarUnused");
            }
        }
    }
    // fragments
    if dup(d.frags().map(|f| &f.name)) {
        v.e("FragNameUniq");
    }
    let mut all_spreads = vec![];
    for o in d.ops() {
        spreads(&o.sels, &mut all_spreads);
    }
    for f in d.frags() {
        spreads(&f.sels, &mut all_spreads);
    }
    for f in d.frags() {
        v.dirs(&f.dirs, "FRAGMENT_DEFINITION");
        if !all_spreads.contains(&f.name) {
            v.e("FragUnused");
        }
        match s.ty(&f.on) {
            None => {
                if is_builtin_scalar(&f.on) {
                    v.e("FragNotComposite");
                } else {
                    v.e("FragNoType");
                }
            }
            Some(t) if !t.is_composite() => v.e("FragNotComposite"),
            Some(_) => {
                let on = f.on.clone();
                v.sels(&on, &f.sels);
            }
        }
        // cycles
        let mut todo = vec![];
        spreads(&f.sels, &mut todo);
        let mut seen: Vec<String> = vec![];
        while let Some(n) = todo.pop() {
            if n == f.name {
                v.e("FragCycle");
                break;
            }
            if !seen.contains(&n) {
                if let Some(x) = d.frag(&n) {
                    spreads(&x.sels, &mut todo);
                }
                seen.push(n);
            }
        }
    }
    if let Some((c, _, _)) = conflict(s, d) {
        v.e(c);
    }
    let _ = (used_frags, dirs_vars as fn(&[Dir], &mut Vec<String>));
    v.out
}
