//! A small executor after the execution section of the specification, over random data. It knows
//! nothing about validation: whatever makes it stop is something an accepted request must not do.
use crate::model::*;
use crate::refval::{args_eq, dir_def};
use crate::tape::Tape;
use crate::vars::{coerce, Vars};
use serde_json::Value as J;
use std::collections::BTreeMap;

pub struct Exec<'d> {
    pub s: &'d Schema,
    pub doc: &'d Doc,
    pub op: &'d Op,
    pub vars: &'d Vars,
    /// response path -> shape, shared between executions of the operation
    pub shapes: BTreeMap<String, String>,
    pub fields: usize,
    pub budget: usize,
}

/// (kind, explanation)
pub type Stuck = (&'static str, String);
type E<T = ()> = Result<T, Stuck>;

type Group<'d> = (&'d str, Vec<(&'d FieldSel, &'d str)>);

enum Given {
    Absent,
    Json(J),
}

impl<'d> Exec<'d> {
    fn var_def(&self, n: &str) -> E<&'d VarDef> {
        self.op.vars.iter().find(|v| v.name == n).ok_or(("undefined variable", n.to_string()))
    }
    fn var(&self, n: &str) -> E<Given> {
        let d = self.var_def(n)?;
        Ok(match (self.vars.get(n), &d.default) {
            (Some(j), _) => Given::Json(j.clone()),
            (None, Some(v)) => Given::Json(crate::vars::json_of(v)),
            (None, None) => Given::Absent,
        })
    }
    /// Does the position accept what is there? `dflt`: the position has a default of its own.
    fn value(&self, ty: &Ty, v: &Val, dflt: bool, at: &str) -> E {
        match (ty, v) {
            (_, Val::Var(n)) => {
                let d = self.var_def(n)?;
                match self.var(n)? {
                    Given::Absent if ty.required() && !dflt => Err(("no value", format!("{at}: ${n}"))),
                    Given::Absent => Ok(()),
                    // the specification accepts a nullable variable where a default takes the place of a missing value, and
                    // leaves an explicit null to fail the field
                    Given::Json(J::Null) if !d.ty.required() && (dflt || d.default.is_some()) => Ok(()),
                    Given::Json(j) => {
                        let mut w = vec![];
                        coerce(self.s, ty, &j, "", true, &mut w);
                        w.first().map_or(Ok(()), |w| Err(("value", format!("{at}: {} at {} for {} from ${n}", w.0, w.1, ty.show()))))
                    }
                }
            }
            (_, Val::Null) if ty.required() => Err(("null", at.into())),
            (_, Val::Null) => Ok(()),
            (Ty::List(i, _), Val::List(l)) => l.iter().try_for_each(|x| match (&**i, x) {
                // a value that is not a list is no list inside of a list
                (Ty::List(..), Val::List(_) | Val::Null | Val::Var(_)) | (Ty::Named(..), _) => self.value(i, x, false, at),
                _ => Err(("value", format!("{at}: {} in a list of {}", val_show(x), i.show()))),
            }),
            (Ty::List(i, _), _) => self.value(i, v, false, at),
            (Ty::Named(n, _), _) => {
                let ok = match (n.as_str(), v) {
                    ("Int", Val::Int(_)) | ("Float", Val::Int(_) | Val::Float(_)) | ("String", Val::Str(_)) | ("Boolean", Val::Bool(_)) | ("ID", Val::Int(_) | Val::Str(_)) => true,
                    _ => match (self.s.ty(n).map(|t| &t.kind), v) {
                        (Some(Kind::Scalar), _) => self.scalar(v).is_ok(),
                        (Some(Kind::Enum(vs)), Val::Enum(e)) => vs.iter().any(|x| x.name == *e),
                        (Some(Kind::Input(fs)), Val::Obj(o)) => {
                            let mut given = 0;
                            for (i, (k, x)) in o.iter().enumerate() {
                                if o[..i].iter().any(|y| y.0 == *k) {
                                    return Err(("input field twice", format!("{at}.{k}")));
                                }
                                let Some(f) = fs.iter().find(|f| f.name == *k) else { return Err(("unknown input field", format!("{at}.{k}"))) };
                                self.value(&f.ty, x, f.default.is_some(), &format!("{at}.{k}"))?;
                                given += match x {
                                    Val::Null => 0,
                                    Val::Var(n) => match self.var_def(n)?.ty.required() {
                                        // what a nullable variable does to a oneOf object is checked when it runs
                                        false => 100,
                                        true => 1,
                                    },
                                    _ => 1,
                                };
                            }
                            if let Some(f) = fs.iter().find(|f| f.required() && !o.iter().any(|x| x.0 == f.name)) {
                                return Err(("missing input field", format!("{at}.{}", f.name)));
                            }
                            if self.s.ty(n).is_some_and(|t| t.one_of()) && (o.len() != 1 || given == 0) {
                                return Err(("oneOf", at.into()));
                            }
                            true
                        }
                        _ => false,
                    },
                };
                ok.then_some(()).ok_or_else(|| ("value", format!("{at}: {} for {}", val_show(v), ty.show())))
            }
        }
    }
    fn scalar(&self, v: &Val) -> E {
        match v {
            Val::Var(n) => self.var(n).map(|_| ()),
            Val::List(l) => l.iter().try_for_each(|x| self.scalar(x)),
            Val::Obj(l) => l.iter().try_for_each(|x| self.scalar(&x.1)),
            _ => Ok(()),
        }
    }
    fn args(&self, defs: &[InVal], args: &[(String, Val)], at: &str) -> E {
        for (i, (n, v)) in args.iter().enumerate() {
            if args[..i].iter().any(|x| x.0 == *n) {
                return Err(("argument twice", format!("{at}({n})")));
            }
            let Some(d) = defs.iter().find(|d| d.name == *n) else { return Err(("unknown argument", format!("{at}({n})"))) };
            self.value(&d.ty, v, d.default.is_some(), &format!("{at}({n})"))?;
        }
        match defs.iter().find(|d| d.required() && !args.iter().any(|a| a.0 == d.name)) {
            Some(d) => Err(("missing argument", format!("{at}({})", d.name))),
            None => Ok(()),
        }
    }
    fn dirs(&self, ds: &Dirs, at: &str) -> E<bool> {
        let mut inc = true;
        for d in ds {
            let Some(def) = dir_def(self.s, &d.name) else { return Err(("unknown directive", format!("{at} @{}", d.name))) };
            self.args(&def.args, &d.args, &format!("{at} @{}", d.name))?;
            if d.name == "skip" || d.name == "include" {
                let Some((_, v)) = d.args.first() else { return Err(("no condition", at.into())) };
                let b = match v {
                    Val::Bool(b) => *b,
                    Val::Var(n) => match self.var(n)? {
                        Given::Json(J::Bool(b)) => b,
                        // an explicit null fails the field, see above
                        _ => d.name == "include",
                    },
                    _ => return Err(("condition", at.into())),
                };
                inc &= b == (d.name == "include");
            }
        }
        Ok(inc)
    }
    fn applies(&self, on: &str, t: &str, at: &str) -> E<bool> {
        if !self.s.is_composite(on) {
            return Err(("fragment on no composite type", format!("{at}: {on}")));
        }
        Ok(self.s.possible(on).iter().any(|x| x == t))
    }
    fn collect(&self, sels: &'d [Sel], on: &'d str, t: &str, at: &str, stack: &mut Vec<&'d str>, out: &mut Vec<Group<'d>>) -> E {
        for s in sels {
            match s {
                Sel::Field(f) => {
                    if self.dirs(&f.dirs, at)? {
                        match out.iter_mut().find(|x| x.0 == f.key()) {
                            Some(x) => x.1.push((f, on)),
                            None => out.push((f.key(), vec![(f, on)])),
                        }
                    }
                }
                Sel::Spread(n, d) => {
                    let inc = self.dirs(d, at)?;
                    let Some(f) = self.doc.frag(n) else { return Err(("undefined fragment", n.clone())) };
                    if stack.contains(&n.as_str()) {
                        return Err(("fragment cycle", n.clone()));
                    }
                    if inc && self.applies(&f.on, t, at)? {
                        stack.push(n);
                        self.collect(&f.sels, &f.on, t, at, stack, out)?;
                        stack.pop();
                    }
                }
                Sel::Inline(c, d, x) => {
                    let inc = self.dirs(d, at)?;
                    let app = match c {
                        Some(c) => self.applies(c, t, at)?,
                        None => true,
                    };
                    if inc && app {
                        self.collect(x, c.as_deref().unwrap_or(on), t, at, stack, out)?;
                    }
                }
            }
        }
        Ok(())
    }
    fn set(&mut self, lists: &[(&'d [Sel], &'d str)], ty: &str, at: &str, tape: &mut Tape) -> E<usize> {
        let mut groups = vec![];
        for (l, on) in lists {
            self.collect(l, on, ty, at, &mut vec![], &mut groups)?;
        }
        let n = groups.len();
        for (k, fs) in groups {
            if self.budget == 0 {
                return Ok(n);
            }
            self.budget -= 1;
            self.fields += 1;
            let at = format!("{at}/{k}");
            let f = fs[0].0;
            if let Some((g, _)) = fs.iter().find(|(g, _)| g.name != f.name) {
                return Err(("two fields under one name", format!("{at}: {} and {}", f.name, g.name)));
            }
            if let Some((g, _)) = fs.iter().find(|(g, _)| !args_eq(&g.args, &f.args)) {
                return Err(("two sets of arguments under one name", format!("{at}: {:?} and {:?}", f.args, g.args)));
            }
            let rt = match (f.name.as_str(), self.s.field(ty, &f.name)) {
                ("__typename", _) => {
                    self.args(&[], &f.args, &at)?;
                    Ty::Named("String".into(), true)
                }
                (_, Some(d)) => d.ty.clone(),
                _ => return Err(("no such field", format!("{at}: {} on {ty}", f.name))),
            };
            let comp = self.s.is_composite(rt.base());
            let mut subs: Vec<(&'d [Sel], &'d str)> = vec![];
            for (f, on) in &fs {
                // what a client that knows the static types expects here
                if let Some(d) = self.s.field(on, &f.name) {
                    // an implementation may require what its interface has a default for
                    self.args(&d.args, &f.args, &at)?;
                }
                let st: Ty = self.s.field_ty(on, &f.name).ok_or_else(|| ("no such field", format!("{at}: {} on {on}", f.name)))?;
                let shape = st.rebase(if comp { "{}" } else { st.base() }).show();
                match self.shapes.get(&at) {
                    Some(old) if *old != shape => return Err(("response shape", format!("{at}: {old} or {shape}"))),
                    Some(_) => {}
                    None => {
                        self.shapes.insert(at.clone(), shape);
                    }
                }
                let base: &'d str = self.s.field(on, &f.name).map(|d| d.ty.base()).unwrap_or("String");
                subs.push((f.sels.as_slice(), base));
            }
            if comp {
                if subs.iter().any(|s| s.0.is_empty()) {
                    return Err(("no selection on a composite", at));
                }
                // null, or data of some types the field can have
                if rt.required() || !tape.chance(1, 8) {
                    let poss = self.s.possible(rt.base());
                    if !poss.is_empty() {
                        for _ in 0..if matches!(rt, Ty::List(..)) { tape.range(1, 2) } else { 1 } {
                            let t = poss[tape.pick(poss.len())].clone();
                            self.set(&subs, &t, &at, tape)?;
                        }
                    }
                }
            } else if subs.iter().any(|s| !s.0.is_empty()) {
                return Err(("selection on a leaf", at));
            }
        }
        Ok(n)
    }
    pub fn run(&mut self, tape: &mut Tape) -> E {
        let Some(root) = self.s.root(self.op.kind) else { return Err(("no such operation type", self.op.kind.kw().into())) };
        self.dirs(&self.op.dirs, "operation")?;
        for v in &self.op.vars {
            if !self.s.is_input_ty(v.ty.base()) {
                return Err(("variable of no input type", v.name.clone()));
            }
        }
        let sels: &'d [Sel] = &self.op.sels;
        let n = self.set(&[(sels, root)], root, "", tape)?;
        if self.op.kind == OpKind::Subscription && n > 1 {
            return Err(("several subscription roots", n.to_string()));
        }
        Ok(())
    }
}
