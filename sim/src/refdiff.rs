//! Reference: what differs between two schemas, one record per change, with its criticality, where
//! it is reported, and what a report of it has to name.
use crate::model::*;
use crate::refval::val_eq;

#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
pub struct Rec {
    pub kind: &'static str,
    pub path: String,
    pub what: String,
    /// 'B'reaking, 'D'angerous, 'S'afe
    pub level: char,
    /// names that the message has to contain
    pub names: Vec<String>,
}

pub struct Diff<'s> {
    old: &'s Schema,
    new: &'s Schema,
    pub out: Vec<Rec>,
    /// differences that the comparator has no change for
    pub silent: Vec<String>,
}

/// every change of a text or value, shown
pub fn arrow(a: impl std::fmt::Debug, b: impl std::fmt::Debug) -> String {
    format!("{a:?} -> {b:?}")
}

fn safe_out(o: &Ty, n: &Ty) -> bool {
    (!o.required() || n.required())
        && match (o, n) {
            (Ty::Named(a, _), Ty::Named(b, _)) => a == b,
            (Ty::List(a, _), Ty::List(b, _)) => safe_out(a, b),
            _ => false,
        }
}
fn safe_in(o: &Ty, n: &Ty) -> bool {
    (o.required() || !n.required())
        && match (o, n) {
            (Ty::Named(a, _), Ty::Named(b, _)) => a == b,
            (Ty::List(a, _), Ty::List(b, _)) => safe_in(a, b),
            _ => false,
        }
}

fn default_eq(a: &Option<Val>, b: &Option<Val>) -> bool {
    match (a, b) {
        (Some(a), Some(b)) => val_eq(a, b),
        (None, None) => true,
        _ => false,
    }
}

impl<'s> Diff<'s> {
    pub fn of(old: &'s Schema, new: &'s Schema) -> Diff<'s> {
        let mut d = Diff { old, new, out: vec![], silent: vec![] };
        d.run();
        d.out.sort();
        d
    }
    fn p(&mut self, kind: &'static str, path: String, what: String, level: char, names: &[&str]) {
        self.out.push(Rec { kind, path, what, level, names: names.iter().map(|x| x.to_string()).collect() });
    }
    fn run(&mut self) {
        let (old, new) = (self.old, self.new);
        for (k, a, b) in [("query", Some(&old.query), Some(&new.query)), ("mutation", old.mutation.as_ref(), new.mutation.as_ref()), ("subscription", old.subscription.as_ref(), new.subscription.as_ref())] {
            if a != b {
                self.silent.push(format!("root {k}"));
            }
        }
        if old.desc != new.desc {
            self.silent.push("schema description".into());
        }
        for t in &old.types {
            match new.ty(&t.name) {
                None => self.p("TypeRemoved", t.name.clone(), String::new(), 'B', &[&t.name]),
                Some(u) => self.types(t, u),
            }
        }
        for t in &new.types {
            if old.ty(&t.name).is_none() {
                self.p("TypeAdded", t.name.clone(), format!("{t:?}"), 'S', &[&t.name]);
            }
        }
        for d in &old.directives {
            match new.dir(&d.name) {
                None => self.p("DirectiveDefinitionRemoved", format!("@{}", d.name), String::new(), 'B', &[&d.name]),
                Some(e) => self.dir_def(d, e),
            }
        }
        for d in &new.directives {
            if old.dir(&d.name).is_none() {
                self.p("DirectiveDefinitionAdded", format!("@{}", d.name), format!("{d:?}"), 'S', &[&d.name]);
            }
        }
        self.dirs("SCHEMA", "", &old.dirs, &new.dirs);
    }
    fn dir_def(&mut self, d: &DirDef, e: &DirDef) {
        let at = format!("@{}", d.name);
        if d.desc != e.desc {
            self.p("DirectiveDefinitionDescriptionChanged", at.clone(), arrow(&d.desc, &e.desc), 'S', &[&d.name]);
        }
        if d.repeatable != e.repeatable {
            self.silent.push(format!("repeatable {}", d.name));
        }
        for l in &d.locs {
            if !e.locs.contains(l) {
                self.p("DirectiveDefinitionLocationRemoved", at.clone(), l.clone(), 'B', &[&d.name, l]);
            }
        }
        for l in &e.locs {
            if !d.locs.contains(l) {
                self.p("DirectiveDefinitionLocationAdded", at.clone(), l.clone(), 'S', &[&d.name, l]);
            }
        }
        for a in &d.args {
            let at = format!("@{}.{}", d.name, a.name);
            match e.args.iter().find(|x| x.name == a.name) {
                None => self.p("DirectiveDefinitionArgumentRemoved", at, String::new(), 'B', &[&d.name, &a.name]),
                Some(b) => {
                    if a.desc != b.desc {
                        self.p("DirectiveDefinitionArgumentDescriptionChanged", at.clone(), arrow(&a.desc, &b.desc), 'S', &[&d.name, &a.name]);
                    }
                    if a.ty != b.ty {
                        let l = if safe_in(&a.ty, &b.ty) { 'S' } else { 'B' };
                        self.p("DirectiveDefinitionArgumentTypeChanged", at.clone(), arrow(&a.ty, &b.ty), l, &[&d.name, &a.name, &a.ty.show(), &b.ty.show()]);
                    }
                    if !default_eq(&a.default, &b.default) {
                        self.p("DirectiveDefinitionArgumentDefaultValueChanged", at, arrow(&a.default, &b.default), if b.required() { 'B' } else { 'D' }, &[&d.name, &a.name]);
                    }
                    if a.dirs != b.dirs {
                        self.silent.push(format!("directives of argument {} of directive {}", a.name, d.name));
                    }
                }
            }
        }
        for b in &e.args {
            if !d.args.iter().any(|x| x.name == b.name) {
                self.p("DirectiveDefinitionArgumentAdded", format!("@{}.{}", d.name, b.name), format!("{b:?}"), if b.required() { 'B' } else { 'S' }, &[&d.name, &b.name]);
            }
        }
    }
    fn dirs(&mut self, loc: &'static str, member: &str, a: &[Dir], b: &[Dir]) {
        let mut names: Vec<&String> = a.iter().chain(b).map(|d| &d.name).collect();
        names.sort();
        names.dedup();
        for n in names {
            // the k-th application of a repeatable directive is what the k-th one was before
            let x: Vec<&Dir> = a.iter().filter(|d| d.name == *n).collect();
            let y: Vec<&Dir> = b.iter().filter(|d| d.name == *n).collect();
            for i in 0..x.len().max(y.len()) {
                match (x.get(i), y.get(i)) {
                    (Some(x), None) => self.p("DirectiveRemoved", n.clone(), format!("{loc} {member} {:?}", x.args), 'B', &[n, member]),
                    (None, Some(y)) => {
                        let l = if loc == "INPUT_OBJECT" && n == "oneOf" { 'B' } else { 'S' };
                        self.p("DirectiveAdded", n.clone(), format!("{loc} {member} {:?}", y.args), l, &[n, member])
                    }
                    (Some(x), Some(y)) => {
                        for (k, v) in &x.args {
                            let at = format!("@{n}.{k}");
                            match y.args.iter().find(|z| z.0 == *k) {
                                None => self.p("DirectiveArgumentRemoved", at, format!("{v:?}"), 'S', &[n, k]),
                                Some((_, w)) if !val_eq(v, w) => self.p("DirectiveArgumentValueChanged", at, arrow(v, w), 'S', &[n, k]),
                                _ => {}
                            }
                        }
                        for (k, v) in &y.args {
                            if !x.args.iter().any(|z| z.0 == *k) {
                                self.p("DirectiveArgumentAdded", format!("@{n}.{k}"), format!("{v:?}"), 'S', &[n, k]);
                            }
                        }
                    }
                    _ => {}
                }
            }
        }
    }
    fn types(&mut self, t: &TypeDef, u: &TypeDef) {
        let n = t.name.as_str();
        if t.desc != u.desc {
            self.p("TypeDescriptionChanged", n.into(), arrow(&t.desc, &u.desc), 'S', &[n]);
        }
        match (&t.kind, &u.kind) {
            (Kind::Object(i, f), Kind::Object(j, g)) => {
                for x in i {
                    if !j.contains(x) {
                        self.p("ObjectInterfaceRemoval", n.into(), x.clone(), 'B', &[n, x]);
                    }
                }
                for x in j {
                    if !i.contains(x) {
                        self.p("ObjectInterfaceAddition", n.into(), x.clone(), 'D', &[n, x]);
                    }
                }
                self.dirs("OBJECT", n, &t.dirs, &u.dirs);
                self.fields(n, f, g);
            }
            (Kind::Interface(i, f), Kind::Interface(j, g)) => {
                let (mut i, mut j) = (i.clone(), j.clone());
                i.sort();
                j.sort();
                if i != j {
                    self.silent.push(format!("interfaces of interface {n}"));
                }
                self.dirs("INTERFACE", n, &t.dirs, &u.dirs);
                self.fields(n, f, g);
            }
            (Kind::Union(a), Kind::Union(b)) => {
                for x in a {
                    if !b.contains(x) {
                        self.p("UnionMemberRemoved", n.into(), x.clone(), 'B', &[n, x]);
                    }
                }
                for x in b {
                    if !a.contains(x) {
                        self.p("UnionMemberAdded", n.into(), x.clone(), 'D', &[n, x]);
                    }
                }
                self.dirs("UNION", n, &t.dirs, &u.dirs);
            }
            (Kind::Enum(a), Kind::Enum(b)) => {
                for x in a {
                    let at = format!("{n}.{}", x.name);
                    match b.iter().find(|y| y.name == x.name) {
                        None => self.p("EnumValueRemoved", at, String::new(), 'B', &[n, &x.name]),
                        Some(y) => {
                            if x.desc != y.desc {
                                self.p("EnumValueDescriptionChanged", at, arrow(&x.desc, &y.desc), 'S', &[n, &x.name]);
                            }
                            self.dirs("ENUM_VALUE", &x.name, &x.dirs, &y.dirs);
                        }
                    }
                }
                for y in b {
                    if !a.iter().any(|x| y.name == x.name) {
                        self.p("EnumValueAdded", format!("{n}.{}", y.name), format!("{y:?}"), 'D', &[n, &y.name]);
                    }
                }
                self.dirs("ENUM", n, &t.dirs, &u.dirs);
            }
            (Kind::Input(a), Kind::Input(b)) => {
                for x in a {
                    let at = format!("{n}.{}", x.name);
                    match b.iter().find(|y| y.name == x.name) {
                        None => self.p("InputFieldRemoved", at, String::new(), 'B', &[n, &x.name]),
                        Some(y) => {
                            if x.desc != y.desc {
                                self.p("InputFieldDescriptionChanged", at.clone(), arrow(&x.desc, &y.desc), 'S', &[n, &x.name]);
                            }
                            if x.ty != y.ty {
                                self.p("InputFieldTypeChanged", at.clone(), arrow(&x.ty, &y.ty), if safe_in(&x.ty, &y.ty) { 'S' } else { 'B' }, &[n, &x.name, &x.ty.show(), &y.ty.show()]);
                            }
                            if !default_eq(&x.default, &y.default) {
                                self.p("InputFieldDefaultValueChanged", at, arrow(&x.default, &y.default), if y.required() { 'B' } else { 'D' }, &[n, &x.name]);
                            }
                            self.dirs("INPUT_FIELD_DEFINITION", &x.name, &x.dirs, &y.dirs);
                        }
                    }
                }
                for y in b {
                    if !a.iter().any(|x| y.name == x.name) {
                        self.p("InputFieldAdded", format!("{n}.{}", y.name), format!("{y:?}"), if y.required() { 'B' } else { 'S' }, &[n, &y.name]);
                    }
                }
                self.dirs("INPUT_OBJECT", n, &t.dirs, &u.dirs);
            }
            (Kind::Scalar, Kind::Scalar) => self.dirs("SCALAR", n, &t.dirs, &u.dirs),
            _ => self.p("TypeKindChanged", n.into(), arrow(t.kind_name(), u.kind_name()), 'B', &[n, t.kind_name(), u.kind_name()]),
        }
    }
    fn fields(&mut self, n: &str, f: &[FieldDef], g: &[FieldDef]) {
        for x in f {
            let at = format!("{n}.{}", x.name);
            let Some(y) = g.iter().find(|y| y.name == x.name) else {
                self.p("FieldRemoved", at, String::new(), 'B', &[n, &x.name]);
                continue;
            };
            if x.desc != y.desc {
                self.p("FieldDescriptionChanged", at.clone(), arrow(&x.desc, &y.desc), 'S', &[n, &x.name]);
            }
            if x.ty != y.ty {
                self.p("FieldTypeChanged", at.clone(), arrow(&x.ty, &y.ty), if safe_out(&x.ty, &y.ty) { 'S' } else { 'B' }, &[n, &x.name, &x.ty.show(), &y.ty.show()]);
            }
            self.dirs("FIELD_DEFINITION", &x.name, &x.dirs, &y.dirs);
            for a in &x.args {
                let at = format!("{at}.{}", a.name);
                match y.args.iter().find(|b| b.name == a.name) {
                    None => self.p("FieldArgumentRemoved", at, String::new(), 'B', &[n, &x.name, &a.name]),
                    Some(b) => {
                        if a.desc != b.desc {
                            self.p("FieldArgumentDescriptionChanged", at.clone(), arrow(&a.desc, &b.desc), 'S', &[n, &x.name, &a.name]);
                        }
                        if a.ty != b.ty {
                            self.p("FieldArgumentTypeChanged", at.clone(), arrow(&a.ty, &b.ty), if safe_in(&a.ty, &b.ty) { 'S' } else { 'B' }, &[n, &x.name, &a.name, &a.ty.show(), &b.ty.show()]);
                        }
                        if !default_eq(&a.default, &b.default) {
                            self.p("FieldArgumentDefaultValueChanged", at, arrow(&a.default, &b.default), if b.required() { 'B' } else { 'D' }, &[n, &x.name, &a.name]);
                        }
                        self.dirs("ARGUMENT_DEFINITION", &a.name, &a.dirs, &b.dirs);
                    }
                }
            }
            for b in &y.args {
                if !x.args.iter().any(|a| a.name == b.name) {
                    self.p("FieldArgumentAdded", format!("{at}.{}", b.name), format!("{b:?}"), if b.required() { 'B' } else { 'S' }, &[n, &x.name, &b.name]);
                }
            }
        }
        for y in g {
            if !f.iter().any(|x| x.name == y.name) {
                self.p("FieldAdded", format!("{n}.{}", y.name), format!("{y:?}"), 'S', &[n, &y.name]);
            }
        }
    }
}
