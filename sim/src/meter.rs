//! Reference meters: what an operation with given variable values asks of a server. Independent of
//! bluejay; computed by specification-style field collection on concrete types.
use crate::gen::*;
use crate::model::*;
use crate::refval::dir_def;
use crate::tape::Tape;
use crate::vars::Vars;
use serde_json::Value as J;
use std::collections::BTreeSet;

/// Put prices and deprecations on a schema.
pub fn price(t: &mut Tape, s: &mut Schema) {
    let st = |n: &str, r: bool| InVal { name: n.into(), desc: None, ty: Ty::Named("String".into(), r), default: None, dirs: vec![] };
    s.directives.push(DirDef { name: "cost".into(), desc: None, args: vec![st("weight", true), st("kind", false)], repeatable: false, locs: vec!["FIELD_DEFINITION".into()] });
    const W: [&str; 12] = ["0", "1", "2.0", "2.9", "5.0", "13", "-3", "0.4", "1e3", "many", "", "1e30"];
    let rate = t.range(1, 6);
    let dep = |t: &mut Tape, d: &mut Dirs| {
        if !d.iter().any(|x| x.name == "deprecated") && t.chance(1, 6) {
            let args = match t.pick(3) {
                0 => vec![],
                _ => vec![("reason".to_string(), Val::Str((*t.choose(&["old", "use b", ""])).into()))],
            };
            d.push(Dir { name: "deprecated".into(), args });
        }
    };
    for td in &mut s.types {
        match &mut td.kind {
            Kind::Enum(v) => v.iter_mut().for_each(|v| dep(t, &mut v.dirs)),
            Kind::Input(v) => v.iter_mut().filter(|v| !v.required()).for_each(|v| dep(t, &mut v.dirs)),
            Kind::Interface(_, f) | Kind::Object(_, f) => {
                for f in f {
                    dep(t, &mut f.dirs);
                    f.args.iter_mut().filter(|a| !a.required()).for_each(|a| dep(t, &mut a.dirs));
                    let conn = f.name.starts_with("conn") || f.args.iter().any(|a| a.name == "first" || a.name == "last");
                    if t.chance(if conn { 6 } else { rate }, 8) {
                        let n = if t.chance(1, 20) { 12 } else { 11 };
                        let mut args = vec![("weight".to_string(), Val::Str(W[t.pick(n)].into()))];
                        if t.chance(if conn { 7 } else { 1 }, 8) {
                            args.push(("kind".into(), Val::Str(if t.chance(7, 8) { "connection" } else { "other" }.into())));
                        }
                        if t.chance(1, 4) {
                            args.reverse();
                        }
                        f.dirs.push(Dir { name: "cost".into(), args });
                    }
                }
            }
            _ => {}
        }
    }
}

/// make a request's lists longer
pub fn inflate(t: &mut Tape, m: &mut Vars) -> bool {
    fn go(t: &mut Tape, v: &mut J, n: &mut usize) {
        match v {
            J::Array(a) => {
                if !a.is_empty() && t.chance(1, 2) {
                    let x = a[t.pick(a.len())].clone();
                    for _ in 0..t.range(1, 6) {
                        a.push(x.clone());
                    }
                    *n += 1;
                }
                a.iter_mut().take(4).for_each(|x| go(t, x, n))
            }
            J::Object(o) => o.values_mut().for_each(|x| go(t, x, n)),
            _ => {}
        }
    }
    let mut n = 0;
    m.values_mut().for_each(|v| go(t, v, &mut n));
    n > 0
}

pub struct Meter<'d> {
    pub s: &'d Schema,
    pub doc: &'d Doc,
    pub op: &'d Op,
    pub vars: &'d Vars,
    pub relay: bool,
    /// follow only what some execution can reach
    pub tight: bool,
    pub memo: Memo,
}
type Memo = std::cell::RefCell<std::collections::BTreeMap<(Vec<(usize, usize, u128)>, String), u128>>;

#[derive(Clone)]
struct Col<'d> {
    f: &'d FieldSel,
    /// the type whose definition of the field was meant
    on: &'d str,
    mult: u128,
}

fn str_arg<'d>(d: &'d Dirs, dir: &str, arg: &str) -> Option<&'d str> {
    let a = &d.iter().find(|x| x.name == dir)?.args;
    a.iter().find(|x| x.0 == arg).and_then(|x| if let Val::Str(s) = &x.1 { Some(s.as_str()) } else { None })
}

impl<'d> Meter<'d> {
    fn var(&self, n: &str, ty: &str) -> Option<(Option<&'d J>, Option<&'d Val>)> {
        let v = self.op.vars.iter().find(|v| v.name == n)?;
        if !matches!(&v.ty, Ty::Named(b, _) if b == ty) {
            return None;
        }
        Some((self.vars.get(n), v.default.as_ref()))
    }
    fn bool_of(&self, v: &Val) -> Option<bool> {
        match v {
            Val::Bool(b) => Some(*b),
            Val::Var(n) => match self.var(n, "Boolean")? {
                (Some(j), _) => j.as_bool(),
                (None, Some(Val::Bool(b))) => Some(*b),
                _ => None,
            },
            _ => None,
        }
    }
    fn int_of(&self, v: &Val) -> Option<i64> {
        match v {
            Val::Int(i) => Some(*i as i64),
            Val::Var(n) => match self.var(n, "Int")? {
                (Some(j), _) => j.as_i64(),
                (None, Some(Val::Int(b))) => Some(*b as i64),
                _ => None,
            },
            _ => None,
        }
    }
    /// a variable that is not provided and has no default of its own: as if the argument were not there
    fn absent(&self, v: &Val) -> bool {
        let Val::Var(n) = v else { return false };
        !self.vars.contains_key(n) && self.op.vars.iter().find(|v| v.name == *n).is_some_and(|v| v.default.is_none())
    }
    /// is a condition undecidable: a null where a Boolean is required?
    pub fn undecided(&self) -> bool {
        let bad = |d: &Dirs| d.iter().any(|x| (x.name == "skip" || x.name == "include") && x.args.iter().any(|a| self.bool_of(&a.1).is_none()));
        fn sels(s: &[Sel], bad: &dyn Fn(&Dirs) -> bool) -> bool {
            s.iter().any(|s| match s {
                Sel::Field(f) => bad(&f.dirs) || sels(&f.sels, bad),
                Sel::Spread(_, d) => bad(d),
                Sel::Inline(_, d, x) => bad(d) || sels(x, bad),
            })
        }
        sels(&self.op.sels, &bad) || self.doc.frags().any(|f| sels(&f.sels, &bad))
    }
    pub fn included(&self, d: &Dirs) -> bool {
        for x in d {
            let want = match x.name.as_str() {
                "skip" => false,
                "include" => true,
                _ => continue,
            };
            if x.args.iter().any(|a| self.bool_of(&a.1) == Some(!want)) {
                return false;
            }
        }
        true
    }
    fn root(&self) -> &'d str {
        self.s.root(self.op.kind).unwrap_or("")
    }

    // ------------------------------------------------------------ depth

    pub fn depth(&self) -> usize {
        self.depth_of(&self.op.sels)
    }
    fn depth_of(&self, s: &[Sel]) -> usize {
        s.iter()
            .map(|s| match s {
                Sel::Field(f) if self.included(&f.dirs) => 1 + self.depth_of(&f.sels),
                Sel::Spread(n, d) if self.included(d) => self.doc.frag(n).map(|f| self.depth_of(&f.sels)).unwrap_or(0),
                Sel::Inline(_, d, x) if self.included(d) => self.depth_of(x),
                _ => 0,
            })
            .max()
            .unwrap_or(0)
    }

    // ------------------------------------------------------------ cost

    fn base(&self, def: Option<&FieldDef>) -> u128 {
        if !self.relay {
            return 1;
        }
        let Some(def) = def else { return 0 };
        if let Some(w) = str_arg(&def.dirs, "cost", "weight").and_then(|w| w.parse::<f32>().ok()) {
            return w.max(0.0) as usize as u128;
        }
        self.s.is_composite(def.ty.base()) as u128
    }
    /// factor for edges and nodes below this field
    fn page(&self, def: Option<&FieldDef>, f: &FieldSel) -> u128 {
        let Some(def) = def else { return 1 };
        if !self.relay || str_arg(&def.dirs, "cost", "kind") != Some("connection") {
            return 1;
        }
        let size = ["first", "last"]
            .iter()
            .filter_map(|n| match f.args.iter().find(|a| a.0 == *n) {
                Some(a) if !self.absent(&a.1) => self.int_of(&a.1),
                _ => def.args.iter().find(|a| a.name == *n).and_then(|a| if let Some(Val::Int(i)) = a.default { Some(i as i64) } else { None }),
            })
            .max()
            .unwrap_or(0);
        if size <= 0 {
            0
        } else {
            let x = 2.0 * (size.max(2) as f64).ln();
            if (x - x.round()).abs() < 1e-3 {
                return (2f32 * (size.max(2) as f32).ln()).floor() as u128;
            }
            x.floor() as u128
        }
    }
    fn collect(&self, sels: &'d [Sel], on: &'d str, t: &str, mult: u128, out: &mut Vec<Col<'d>>) {
        let here = self.s.possible(on).iter().any(|x| x == t);
        if self.tight && !here {
            return;
        }
        for s in sels {
            match s {
                Sel::Field(f) => {
                    if here && self.included(&f.dirs) {
                        let mult = if f.name == "edges" || f.name == "nodes" { mult } else { 1 };
                        out.push(Col { f, on, mult })
                    }
                }
                Sel::Spread(n, d) => {
                    if let (true, Some(fr)) = (self.included(d), self.doc.frag(n)) {
                        self.collect(&fr.sels, &fr.on, t, mult, out)
                    }
                }
                Sel::Inline(c, d, x) => {
                    if self.included(d) {
                        self.collect(x, c.as_deref().unwrap_or(on), t, mult, out)
                    }
                }
            }
        }
    }
    /// what the same fields cost below the same type need not be worked out again
    fn cost_of(&self, cols: &[Col<'d>], t: &str) -> u128 {
        let key = (cols.iter().map(|c| (c.f as *const FieldSel as usize, c.on.as_ptr() as usize, c.mult)).collect::<Vec<_>>(), if self.tight { t.to_string() } else { String::new() });
        if let Some(x) = self.memo.borrow().get(&key) {
            return *x;
        }
        let x = self.work_out(cols, t);
        self.memo.borrow_mut().insert(key, x);
        x
    }
    fn work_out(&self, cols: &[Col<'d>], t: &str) -> u128 {
        let mut keys: Vec<&str> = vec![];
        for c in cols {
            if !keys.contains(&c.f.key()) {
                keys.push(c.f.key());
            }
        }
        let mut sum = 0u128;
        for k in keys {
            let same: Vec<&Col<'d>> = cols.iter().filter(|c| c.f.key() == k).collect();
            let base = same.iter().map(|c| self.base(self.s.field(c.on, &c.f.name))).max().unwrap_or(0);
            let mult = same.iter().map(|c| c.mult).max().unwrap_or(1);
            let kinds: Vec<String> = if self.tight {
                self.s.field(t, &same[0].f.name).map(|d| self.s.possible(d.ty.base())).unwrap_or_default()
            } else {
                self.s.types.iter().filter(|t| t.is_object()).map(|t| t.name.clone()).collect()
            };
            let mut best = 0;
            for x in kinds {
                let mut sub = vec![];
                for c in &same {
                    let def = self.s.field(c.on, &c.f.name);
                    if let Some(d) = def {
                        self.collect(&c.f.sels, d.ty.base(), &x, self.page(def, c.f), &mut sub);
                    }
                }
                if !sub.is_empty() {
                    best = best.max(self.cost_of(&sub, &x));
                }
            }
            sum = sum.saturating_add(best.saturating_add(base).saturating_mul(mult));
        }
        sum
    }
    pub fn cost(&self) -> usize {
        let mut cols = vec![];
        let roots: Vec<&str> = if self.tight { vec![self.root()] } else { self.s.types.iter().filter(|t| t.is_object()).map(|t| t.name.as_str()).collect() };
        let mut best = 0;
        for r in roots {
            cols.clear();
            self.collect(&self.op.sels, self.root(), r, 1, &mut cols);
            best = best.max(self.cost_of(&cols, r));
        }
        usize::try_from(best).unwrap_or(usize::MAX)
    }

    // ------------------------------------------------------------ arguments

    /// every argument with its definition, and whether the element carrying it is included
    fn args(&self) -> Vec<(&'d str, &'d Val, InVal, bool)> {
        let mut o = vec![];
        self.dir_args(&self.op.dirs, true, &mut o);
        self.sel_args(&self.op.sels, self.root(), true, &mut o);
        o
    }
    fn dir_args(&self, d: &'d Dirs, inc: bool, o: &mut Vec<(&'d str, &'d Val, InVal, bool)>) {
        for x in d {
            if let Some(def) = dir_def(self.s, &x.name) {
                for (n, v) in &x.args {
                    if let Some(a) = def.args.iter().find(|a| a.name == *n) {
                        o.push((n, v, a.clone(), inc));
                    }
                }
            }
        }
    }
    fn sel_args(&self, s: &'d [Sel], on: &'d str, inc: bool, o: &mut Vec<(&'d str, &'d Val, InVal, bool)>) {
        for x in s {
            match x {
                Sel::Field(f) => {
                    let inc = inc && self.included(&f.dirs);
                    self.dir_args(&f.dirs, inc, o);
                    if let Some(def) = self.s.field(on, &f.name) {
                        for (n, v) in &f.args {
                            if let Some(a) = def.args.iter().find(|a| a.name == *n) {
                                o.push((n, v, a.clone(), inc));
                            }
                        }
                        self.sel_args(&f.sels, def.ty.base(), inc, o);
                    }
                }
                Sel::Spread(n, d) => {
                    let inc = inc && self.included(d);
                    self.dir_args(d, inc, o);
                    if let Some(f) = self.doc.frag(n) {
                        self.sel_args(&f.sels, &f.on, inc, o);
                    }
                }
                Sel::Inline(c, d, x) => {
                    let inc = inc && self.included(d);
                    self.dir_args(d, inc, o);
                    self.sel_args(x, c.as_deref().unwrap_or(on), inc, o);
                }
            }
        }
    }

    /// lists longer than `max`: (path, length), those that must and those that may be reported
    pub fn long(&self, max: usize) -> (BTreeSet<(String, usize)>, BTreeSet<(String, usize)>) {
        let (mut must, mut may) = (BTreeSet::new(), BTreeSet::new());
        for (n, v, _, inc) in self.args() {
            let mut o = vec![];
            self.long_val(v, n, max, &mut o);
            if inc {
                must.extend(o.iter().cloned());
            }
            may.extend(o);
        }
        (must, may)
    }
    fn long_val(&self, v: &Val, path: &str, max: usize, o: &mut Vec<(String, usize)>) {
        match v {
            Val::List(l) if l.len() > max => o.push((path.into(), l.len())),
            Val::List(l) => l.iter().enumerate().for_each(|(i, x)| self.long_val(x, &format!("{path}.{i}"), max, o)),
            Val::Obj(l) => l.iter().for_each(|(i, x)| self.long_val(x, &format!("{path}.{i}"), max, o)),
            Val::Var(n) => match self.vars.get(n) {
                Some(j) => long_json(j, path, max, o),
                None => {
                    if let Some(d) = self.op.vars.iter().find(|v| v.name == *n).and_then(|v| v.default.as_ref()) {
                        self.long_val(d, path, max, o)
                    }
                }
            },
            _ => {}
        }
    }

    /// deprecated elements used: (kind, name, reason), those that must and those that may be reported
    pub fn deprecated(&self) -> (BTreeSet<Use>, BTreeSet<Use>) {
        let (mut must, mut may) = (BTreeSet::new(), BTreeSet::new());
        for (n, v, def, inc) in self.args() {
            let mut o = vec![];
            if let Some(r) = reason(&def.dirs) {
                o.push(("argument", n.to_string(), r));
            }
            self.dep_val(&def.ty, v, n, &mut o);
            if inc {
                must.extend(o.iter().cloned());
            }
            may.extend(o);
        }
        for v in &self.op.vars {
            let mut o = vec![];
            if let Some(j) = self.vars.get(&v.name) {
                self.dep_json(&v.ty, j, &v.name, &mut o);
            }
            if let Some(d) = &v.default {
                self.dep_val(&v.ty, d, &v.name, &mut o);
            }
            must.extend(o.iter().cloned());
            may.extend(o);
            let mut a = vec![];
            self.dir_args(&v.dirs, false, &mut a);
            self.dep_dirs(a, &mut may);
        }
        // directives on fragment definitions
        for f in self.doc.frags() {
            let mut a = vec![];
            self.dir_args(&f.dirs, false, &mut a);
            self.dep_dirs(a, &mut may);
        }
        let mut o = vec![];
        self.dep_sels(&self.op.sels, self.root(), &mut o);
        must.extend(o.iter().cloned());
        may.extend(o);
        (must, may)
    }
    fn dep_dirs(&self, a: Vec<(&'d str, &'d Val, InVal, bool)>, may: &mut BTreeSet<Use>) {
        for (n, v, def, _) in a {
            let mut o = vec![];
            if let Some(r) = reason(&def.dirs) {
                o.push(("argument", n.to_string(), r));
            }
            self.dep_val(&def.ty, v, n, &mut o);
            may.extend(o);
        }
    }
    fn dep_sels(&self, s: &'d [Sel], on: &'d str, o: &mut Vec<Use>) {
        for x in s {
            match x {
                Sel::Field(f) if self.included(&f.dirs) => {
                    if let Some(d) = self.s.field(on, &f.name) {
                        if let Some(r) = reason(&d.dirs) {
                            o.push(("field", f.name.clone(), r));
                        }
                        self.dep_sels(&f.sels, d.ty.base(), o);
                    }
                }
                Sel::Spread(n, d) if self.included(d) => {
                    if let Some(f) = self.doc.frag(n) {
                        self.dep_sels(&f.sels, &f.on, o);
                    }
                }
                Sel::Inline(c, d, x) if self.included(d) => self.dep_sels(x, c.as_deref().unwrap_or(on), o),
                _ => {}
            }
        }
    }
    fn dep_val(&self, ty: &Ty, v: &Val, name: &str, o: &mut Vec<Use>) {
        match (ty, v) {
            (Ty::List(i, _), Val::List(l)) => l.iter().for_each(|x| self.dep_val(i, x, name, o)),
            (Ty::List(i, _), _) => self.dep_val(i, v, name, o),
            (Ty::Named(n, _), _) => match (self.s.ty(n).map(|t| &t.kind), v) {
                (Some(Kind::Enum(vs)), Val::Enum(e)) => {
                    if let Some(r) = vs.iter().find(|x| x.name == *e).and_then(|x| reason(&x.dirs)) {
                        o.push(("enum value", name.into(), r));
                    }
                }
                (Some(Kind::Input(fs)), Val::Obj(ob)) => {
                    for f in fs {
                        if let Some((_, x)) = ob.iter().find(|x| x.0 == f.name) {
                            if let Some(r) = reason(&f.dirs) {
                                o.push(("input field", f.name.clone(), r));
                            }
                            self.dep_val(&f.ty, x, name, o);
                        }
                    }
                }
                _ => {}
            },
        }
    }
    fn dep_json(&self, ty: &Ty, v: &J, name: &str, o: &mut Vec<Use>) {
        match (ty, v) {
            (Ty::List(i, _), J::Array(l)) => l.iter().for_each(|x| self.dep_json(i, x, name, o)),
            (Ty::List(i, _), _) => self.dep_json(i, v, name, o),
            (Ty::Named(n, _), _) => match (self.s.ty(n).map(|t| &t.kind), v) {
                (Some(Kind::Enum(vs)), J::String(e)) => {
                    if let Some(r) = vs.iter().find(|x| x.name == *e).and_then(|x| reason(&x.dirs)) {
                        o.push(("enum value", name.into(), r));
                    }
                }
                (Some(Kind::Input(fs)), J::Object(ob)) => {
                    for f in fs {
                        if let Some(x) = ob.get(&f.name) {
                            if let Some(r) = reason(&f.dirs) {
                                o.push(("input field", f.name.clone(), r));
                            }
                            self.dep_json(&f.ty, x, name, o);
                        }
                    }
                }
                _ => {}
            },
        }
    }
}

pub type Use = (&'static str, String, String);

fn reason(d: &Dirs) -> Option<String> {
    d.iter().find(|x| x.name == "deprecated").map(|_| str_arg(d, "deprecated", "reason").unwrap_or("No longer supported.").to_string())
}

fn long_json(j: &J, path: &str, max: usize, o: &mut Vec<(String, usize)>) {
    match j {
        J::Array(l) if l.len() > max => o.push((path.into(), l.len())),
        J::Array(l) => l.iter().enumerate().for_each(|(i, x)| long_json(x, &format!("{path}.{i}"), max, o)),
        J::Object(l) => l.iter().for_each(|(i, x)| long_json(x, &format!("{path}.{i}"), max, o)),
        _ => {}
    }
}

/// keep the generated operation and document small enough for exhaustive collection
pub fn small(d: &Doc) -> bool {
    let mut n = 0;
    d.each_field(&mut |_| n += 1);
    let _ = val_vars;
    n <= 80
}
