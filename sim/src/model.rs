//! Independent data model of GraphQL schemas and executable documents, and their rendering to
//! source text. Nothing here uses bluejay.
use crate::tape::Tape;
use std::collections::BTreeMap;

#[derive(Debug, Clone, PartialEq)]
pub enum Ty {
    Named(String, bool),
    List(Box<Ty>, bool),
}
impl Ty {
    pub fn named(s: &str) -> Ty {
        Ty::Named(s.into(), false)
    }
    pub fn base(&self) -> &str {
        match self {
            Ty::Named(n, _) => n,
            Ty::List(i, _) => i.base(),
        }
    }
    pub fn required(&self) -> bool {
        match self {
            Ty::Named(_, r) | Ty::List(_, r) => *r,
        }
    }
    pub fn with_req(&self, r: bool) -> Ty {
        match self {
            Ty::Named(n, _) => Ty::Named(n.clone(), r),
            Ty::List(i, _) => Ty::List(i.clone(), r),
        }
    }
    pub fn show(&self) -> String {
        let b = |r: &bool| if *r { "!" } else { "" };
        match self {
            Ty::Named(n, r) => format!("{n}{}", b(r)),
            Ty::List(i, r) => format!("[{}]{}", i.show(), b(r)),
        }
    }
    pub fn rebase(&self, n: &str) -> Ty {
        match self {
            Ty::Named(_, r) => Ty::Named(n.into(), *r),
            Ty::List(i, r) => Ty::List(Box::new(i.rebase(n)), *r),
        }
    }
    pub fn depth(&self) -> usize {
        match self {
            Ty::Named(..) => 0,
            Ty::List(i, _) => 1 + i.depth(),
        }
    }
}

#[derive(Debug, Clone, PartialEq)]
pub enum Val {
    Null,
    Bool(bool),
    Int(i32),
    Float(f64),
    Str(String),
    Enum(String),
    List(Vec<Val>),
    Obj(Vec<(String, Val)>),
    Var(String),
}

#[derive(Debug, Clone, PartialEq)]
pub struct Dir {
    pub name: String,
    pub args: Vec<(String, Val)>,
}
pub type Dirs = Vec<Dir>;

#[derive(Debug, Clone, PartialEq)]
pub struct InVal {
    pub name: String,
    pub desc: Option<String>,
    pub ty: Ty,
    pub default: Option<Val>,
    pub dirs: Dirs,
}
impl InVal {
    pub fn required(&self) -> bool {
        self.ty.required() && self.default.is_none()
    }
}

#[derive(Debug, Clone, PartialEq)]
pub struct FieldDef {
    pub name: String,
    pub desc: Option<String>,
    pub args: Vec<InVal>,
    pub ty: Ty,
    pub dirs: Dirs,
}

#[derive(Debug, Clone, PartialEq)]
pub struct EnumVal {
    pub name: String,
    pub desc: Option<String>,
    pub dirs: Dirs,
}

#[derive(Debug, Clone, PartialEq)]
pub enum Kind {
    Scalar,
    Enum(Vec<EnumVal>),
    Input(Vec<InVal>),
    Interface(Vec<String>, Vec<FieldDef>),
    Object(Vec<String>, Vec<FieldDef>),
    Union(Vec<String>),
}

#[derive(Debug, Clone, PartialEq)]
pub struct TypeDef {
    pub name: String,
    pub desc: Option<String>,
    pub dirs: Dirs,
    pub kind: Kind,
}
impl TypeDef {
    pub fn fields(&self) -> &[FieldDef] {
        match &self.kind {
            Kind::Object(_, f) | Kind::Interface(_, f) => f,
            _ => &[],
        }
    }
    pub fn fields_mut(&mut self) -> Option<&mut Vec<FieldDef>> {
        match &mut self.kind {
            Kind::Object(_, f) | Kind::Interface(_, f) => Some(f),
            _ => None,
        }
    }
    pub fn ifaces(&self) -> &[String] {
        match &self.kind {
            Kind::Object(i, _) | Kind::Interface(i, _) => i,
            _ => &[],
        }
    }
    pub fn in_fields(&self) -> &[InVal] {
        match &self.kind {
            Kind::Input(f) => f,
            _ => &[],
        }
    }
    pub fn enum_vals(&self) -> &[EnumVal] {
        match &self.kind {
            Kind::Enum(v) => v,
            _ => &[],
        }
    }
    pub fn is_composite(&self) -> bool {
        matches!(self.kind, Kind::Object(..) | Kind::Interface(..) | Kind::Union(_))
    }
    pub fn is_object(&self) -> bool {
        matches!(self.kind, Kind::Object(..))
    }
    pub fn is_interface(&self) -> bool {
        matches!(self.kind, Kind::Interface(..))
    }
    pub fn is_union(&self) -> bool {
        matches!(self.kind, Kind::Union(_))
    }
    pub fn is_input(&self) -> bool {
        matches!(self.kind, Kind::Input(_))
    }
    pub fn is_enum(&self) -> bool {
        matches!(self.kind, Kind::Enum(_))
    }
    pub fn is_scalar(&self) -> bool {
        matches!(self.kind, Kind::Scalar)
    }
    pub fn one_of(&self) -> bool {
        self.is_input() && self.dirs.iter().any(|d| d.name == "oneOf")
    }
    pub fn kind_name(&self) -> &'static str {
        match self.kind {
            Kind::Scalar => "SCALAR",
            Kind::Enum(_) => "ENUM",
            Kind::Input(_) => "INPUT_OBJECT",
            Kind::Interface(..) => "INTERFACE",
            Kind::Object(..) => "OBJECT",
            Kind::Union(_) => "UNION",
        }
    }
}

#[derive(Debug, Clone, PartialEq)]
pub struct DirDef {
    pub name: String,
    pub desc: Option<String>,
    pub args: Vec<InVal>,
    pub repeatable: bool,
    pub locs: Vec<String>,
}

#[derive(Debug, Clone, PartialEq)]
pub struct Schema {
    pub desc: Option<String>,
    pub dirs: Dirs,
    /// printed with an explicit `schema { }` block
    pub explicit: bool,
    pub query: String,
    pub mutation: Option<String>,
    pub subscription: Option<String>,
    pub types: Vec<TypeDef>,
    pub directives: Vec<DirDef>,
}

pub const BUILTIN_SCALARS: [&str; 5] = ["Int", "Float", "String", "Boolean", "ID"];
pub fn is_builtin_scalar(n: &str) -> bool {
    BUILTIN_SCALARS.contains(&n)
}

impl Schema {
    pub fn ty(&self, n: &str) -> Option<&TypeDef> {
        self.types.iter().find(|t| t.name == n)
    }
    pub fn ty_mut(&mut self, n: &str) -> Option<&mut TypeDef> {
        self.types.iter_mut().find(|t| t.name == n)
    }
    pub fn dir(&self, n: &str) -> Option<&DirDef> {
        self.directives.iter().find(|t| t.name == n)
    }
    pub fn root(&self, k: OpKind) -> Option<&str> {
        match k {
            OpKind::Query => Some(&self.query),
            OpKind::Mutation => self.mutation.as_deref(),
            OpKind::Subscription => self.subscription.as_deref(),
        }
    }
    pub fn is_leaf(&self, n: &str) -> bool {
        is_builtin_scalar(n) || self.ty(n).map(|t| t.is_enum() || t.is_scalar()).unwrap_or(false)
    }
    pub fn is_input_ty(&self, n: &str) -> bool {
        self.is_leaf(n) || self.ty(n).map(|t| t.is_input()).unwrap_or(false)
    }
    pub fn is_composite(&self, n: &str) -> bool {
        self.ty(n).map(|t| t.is_composite()).unwrap_or(false)
    }
    /// object types that a value of static type `n` can have at run time
    pub fn possible(&self, n: &str) -> Vec<String> {
        match self.ty(n).map(|t| &t.kind) {
            Some(Kind::Object(..)) => vec![n.to_string()],
            Some(Kind::Interface(..)) => self
                .types
                .iter()
                .filter(|t| t.is_object() && t.ifaces().iter().any(|i| i == n))
                .map(|t| t.name.clone())
                .collect(),
            Some(Kind::Union(m)) => m.clone(),
            _ => vec![],
        }
    }
    pub fn overlap(&self, a: &str, b: &str) -> bool {
        let pb = self.possible(b);
        self.possible(a).iter().any(|x| pb.contains(x))
    }
    /// field lookup including the `__typename` meta field (not `__schema`/`__type`)
    pub fn field_ty(&self, parent: &str, f: &str) -> Option<Ty> {
        if f == "__typename" {
            return self.is_composite(parent).then(|| Ty::Named("String".into(), true));
        }
        self.ty(parent)?.fields().iter().find(|x| x.name == f).map(|x| x.ty.clone())
    }
    pub fn field(&self, parent: &str, f: &str) -> Option<&FieldDef> {
        self.ty(parent)?.fields().iter().find(|x| x.name == f)
    }
}

// ------------------------------------------------------------------ executable

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum OpKind {
    Query,
    Mutation,
    Subscription,
}
impl OpKind {
    pub fn kw(&self) -> &'static str {
        match self {
            OpKind::Query => "query",
            OpKind::Mutation => "mutation",
            OpKind::Subscription => "subscription",
        }
    }
}

#[derive(Debug, Clone, PartialEq)]
pub struct VarDef {
    pub name: String,
    pub ty: Ty,
    pub default: Option<Val>,
    pub dirs: Dirs,
}
#[derive(Debug, Clone, PartialEq)]
pub struct FieldSel {
    pub alias: Option<String>,
    pub name: String,
    pub args: Vec<(String, Val)>,
    pub dirs: Dirs,
    pub sels: Vec<Sel>,
}
impl FieldSel {
    pub fn key(&self) -> &str {
        self.alias.as_deref().unwrap_or(&self.name)
    }
}
#[derive(Debug, Clone, PartialEq)]
pub enum Sel {
    Field(FieldSel),
    Spread(String, Dirs),
    Inline(Option<String>, Dirs, Vec<Sel>),
}
#[derive(Debug, Clone, PartialEq)]
pub struct Op {
    pub kind: OpKind,
    /// `{ ... }` with no keyword
    pub shorthand: bool,
    pub name: Option<String>,
    pub vars: Vec<VarDef>,
    pub dirs: Dirs,
    pub sels: Vec<Sel>,
}
#[derive(Debug, Clone, PartialEq)]
pub struct Frag {
    pub name: String,
    pub on: String,
    pub dirs: Dirs,
    pub sels: Vec<Sel>,
}
#[derive(Debug, Clone, PartialEq)]
pub enum Def {
    Op(Op),
    Frag(Frag),
}
#[derive(Debug, Clone, PartialEq, Default)]
pub struct Doc {
    pub defs: Vec<Def>,
}
impl Doc {
    pub fn ops(&self) -> impl Iterator<Item = &Op> {
        self.defs.iter().filter_map(|d| if let Def::Op(o) = d { Some(o) } else { None })
    }
    pub fn frags(&self) -> impl Iterator<Item = &Frag> {
        self.defs.iter().filter_map(|d| if let Def::Frag(o) = d { Some(o) } else { None })
    }
    pub fn frag(&self, n: &str) -> Option<&Frag> {
        self.frags().find(|f| f.name == n)
    }
    /// every field, nested included
    pub fn each_field<'d>(&'d self, f: &mut dyn FnMut(&'d FieldSel)) {
        fn go<'d>(v: &'d [Sel], f: &mut dyn FnMut(&'d FieldSel)) {
            for s in v {
                match s {
                    Sel::Field(x) => {
                        f(x);
                        go(&x.sels, f)
                    }
                    Sel::Inline(_, _, s) => go(s, f),
                    Sel::Spread(..) => {}
                }
            }
        }
        for d in &self.defs {
            match d {
                Def::Op(o) => go(&o.sels, f),
                Def::Frag(o) => go(&o.sels, f),
            }
        }
    }
    /// some field argument holds an object literal that names a key twice
    pub fn has_repeated_keys(&self) -> bool {
        fn rep(v: &Val) -> bool {
            match v {
                Val::List(l) => l.iter().any(rep),
                Val::Obj(o) => o.iter().enumerate().any(|(i, (k, v))| o[..i].iter().any(|(k2, _)| k2 == k) || rep(v)),
                _ => false,
            }
        }
        let mut r = false;
        self.each_field(&mut |f| r |= f.args.iter().any(|(_, v)| rep(v)));
        r
    }
    /// visit every selection list, the inner ones first
    pub fn each_list(&mut self, f: &mut dyn FnMut(&mut Vec<Sel>)) {
        fn go(v: &mut Vec<Sel>, f: &mut dyn FnMut(&mut Vec<Sel>)) {
            for s in v.iter_mut() {
                match s {
                    Sel::Field(x) if !x.sels.is_empty() => go(&mut x.sels, f),
                    Sel::Inline(_, _, s) => go(s, f),
                    _ => {}
                }
            }
            f(v)
        }
        for d in &mut self.defs {
            match d {
                Def::Op(o) => go(&mut o.sels, f),
                Def::Frag(x) => go(&mut x.sels, f),
            }
        }
    }
    /// apply `f` to one selection list, chosen by `choose` out of their number
    pub fn one_list(&mut self, choose: &mut dyn FnMut(usize) -> usize, f: &mut dyn FnMut(&mut Vec<Sel>)) {
        let mut n = 0;
        self.each_list(&mut |_| n += 1);
        if n > 0 {
            let (at, mut k) = (choose(n), 0);
            self.each_list(&mut |l| {
                if k == at {
                    f(l)
                }
                k += 1;
            });
        }
    }
}

// ------------------------------------------------------------------ rendering

/// How much lexical freedom to use when rendering.
#[derive(Clone, Copy, PartialEq)]
pub enum Style {
    Plain,
    Noisy,
}

pub struct Out<'a> {
    pub toks: Vec<String>,
    pub t: Option<&'a mut Tape>,
}

impl<'a> Out<'a> {
    pub fn p(&mut self, s: &str) {
        self.toks.push(s.to_string());
    }
    fn chance(&mut self, n: usize, d: usize) -> bool {
        match &mut self.t {
            Some(t) => t.chance(n, d),
            None => false,
        }
    }
    fn pick(&mut self, n: usize) -> usize {
        match &mut self.t {
            Some(t) => t.pick(n),
            None => 0,
        }
    }
    pub fn string(&mut self, s: &str) {
        let alt = self.chance(1, 3);
        if alt {
            let b = match &mut self.t {
                Some(t) => block_string_noisy(s, t),
                None => block_string(s),
            };
            if let Some(b) = b {
                self.toks.push(b);
                return;
            }
        }
        let mut o = String::from("\"");
        for c in s.chars() {
            let esc = self.t.is_some() && self.chance(1, 12);
            match c {
                '"' => o.push_str("\\\""),
                '\\' => o.push_str("\\\\"),
                '\n' => o.push_str(if esc { "\\u000A" } else { "\\n" }),
                '\r' => o.push_str("\\r"),
                '\t' => o.push_str(if esc { "\\u{9}" } else { "\\t" }),
                '\u{8}' => o.push_str("\\b"),
                '\u{c}' => o.push_str("\\f"),
                '/' if esc => o.push_str("\\/"),
                c if (c as u32) < 0x20 => o.push_str(&format!("\\u{:04x}", c as u32)),
                c if esc => {
                    let v = c as u32;
                    if self.pick(2) == 0 {
                        o.push_str(&format!("\\u{{{v:X}}}"))
                    } else if v < 0x10000 {
                        o.push_str(&format!("\\u{v:04X}"))
                    } else {
                        let w = v - 0x10000;
                        o.push_str(&format!("\\u{:04X}\\u{:04x}", 0xD800 + (w >> 10), 0xDC00 + (w & 0x3ff)))
                    }
                }
                c => o.push(c),
            }
        }
        o.push('"');
        self.toks.push(o);
    }
    pub fn float(&mut self, f: f64) {
        let k = self.pick(3);
        let mut s = match k {
            0 => format!("{f:?}"),
            1 => format!("{f:e}"),
            _ => format!("{f:E}"),
        };
        if !s.contains(['.', 'e', 'E']) {
            s.push_str(".0");
        }
        if k == 2 && self.chance(1, 2) {
            // explicit plus sign in the exponent
            if let Some(p) = s.find('E') {
                if !s[p + 1..].starts_with('-') {
                    s.insert(p + 1, '+');
                }
            }
        }
        self.toks.push(s);
    }
    pub fn val(&mut self, v: &Val) {
        match v {
            Val::Null => self.p("null"),
            Val::Bool(b) => self.p(if *b { "true" } else { "false" }),
            Val::Int(i) => self.toks.push(i.to_string()),
            Val::Float(f) => self.float(*f),
            Val::Str(s) => self.string(s),
            Val::Enum(s) => self.p(s),
            Val::List(l) => {
                self.p("[");
                for x in l {
                    self.val(x);
                }
                self.p("]");
            }
            Val::Obj(o) => {
                self.p("{");
                for (k, x) in o {
                    self.p(k);
                    self.p(":");
                    self.val(x);
                }
                self.p("}");
            }
            Val::Var(n) => self.toks.push(format!("${n}")),
        }
    }
    pub fn ty(&mut self, t: &Ty) {
        match t {
            Ty::Named(n, r) => {
                self.p(n);
                if *r {
                    self.p("!");
                }
            }
            Ty::List(i, r) => {
                self.p("[");
                self.ty(i);
                self.p("]");
                if *r {
                    self.p("!");
                }
            }
        }
    }
    pub fn args(&mut self, a: &[(String, Val)]) {
        if !a.is_empty() {
            self.p("(");
            for (k, v) in a {
                self.p(k);
                self.p(":");
                self.val(v);
            }
            self.p(")");
        }
    }
    pub fn dirs(&mut self, d: &[Dir]) {
        for d in d {
            self.p("@");
            self.p(&d.name);
            self.args(&d.args);
        }
    }
    pub fn desc(&mut self, d: &Option<String>) {
        if let Some(d) = d {
            self.string(d);
        }
    }
    fn in_val(&mut self, v: &InVal) {
        self.desc(&v.desc);
        self.p(&v.name);
        self.p(":");
        self.ty(&v.ty);
        if let Some(d) = &v.default {
            self.p("=");
            self.val(d);
        }
        self.dirs(&v.dirs);
    }
    fn args_def(&mut self, a: &[InVal]) {
        if !a.is_empty() {
            self.p("(");
            for v in a {
                self.in_val(v);
            }
            self.p(")");
        }
    }
    fn fields(&mut self, f: &[FieldDef]) {
        self.p("{");
        for f in f {
            self.desc(&f.desc);
            self.p(&f.name);
            self.args_def(&f.args);
            self.p(":");
            self.ty(&f.ty);
            self.dirs(&f.dirs);
        }
        self.p("}");
    }
    fn ifaces(&mut self, i: &[String]) {
        if !i.is_empty() {
            self.p("implements");
            if self.chance(1, 4) {
                self.p("&");
            }
            for (n, x) in i.iter().enumerate() {
                if n > 0 {
                    self.p("&");
                }
                self.p(x);
            }
        }
    }
    pub fn type_def(&mut self, t: &TypeDef) {
        self.desc(&t.desc);
        match &t.kind {
            Kind::Scalar => {
                self.p("scalar");
                self.p(&t.name);
                self.dirs(&t.dirs);
            }
            Kind::Enum(v) => {
                self.p("enum");
                self.p(&t.name);
                self.dirs(&t.dirs);
                self.p("{");
                for v in v {
                    self.desc(&v.desc);
                    self.p(&v.name);
                    self.dirs(&v.dirs);
                }
                self.p("}");
            }
            Kind::Input(f) => {
                self.p("input");
                self.p(&t.name);
                self.dirs(&t.dirs);
                self.p("{");
                for v in f {
                    self.in_val(v);
                }
                self.p("}");
            }
            Kind::Interface(i, f) => {
                self.p("interface");
                self.p(&t.name);
                self.ifaces(i);
                self.dirs(&t.dirs);
                self.fields(f);
            }
            Kind::Object(i, f) => {
                self.p("type");
                self.p(&t.name);
                self.ifaces(i);
                self.dirs(&t.dirs);
                self.fields(f);
            }
            Kind::Union(m) => {
                self.p("union");
                self.p(&t.name);
                self.dirs(&t.dirs);
                self.p("=");
                if self.chance(1, 4) {
                    self.p("|");
                }
                for (n, x) in m.iter().enumerate() {
                    if n > 0 {
                        self.p("|");
                    }
                    self.p(x);
                }
            }
        }
    }
    pub fn dir_def(&mut self, d: &DirDef) {
        self.desc(&d.desc);
        self.p("directive");
        self.p("@");
        self.p(&d.name);
        self.args_def(&d.args);
        if d.repeatable {
            self.p("repeatable");
        }
        self.p("on");
        if self.chance(1, 4) {
            self.p("|");
        }
        for (n, l) in d.locs.iter().enumerate() {
            if n > 0 {
                self.p("|");
            }
            self.p(l);
        }
    }
    pub fn schema_block(&mut self, s: &Schema) {
        self.desc(&s.desc);
        self.p("schema");
        self.dirs(&s.dirs);
        self.p("{");
        let mut v = vec![("query", Some(&s.query)), ("mutation", s.mutation.as_ref()), ("subscription", s.subscription.as_ref())];
        if let Some(t) = &mut self.t {
            t.shuffle(&mut v);
        }
        for (k, n) in v {
            if let Some(n) = n {
                self.p(k);
                self.p(":");
                self.p(n);
            }
        }
        self.p("}");
    }
    pub fn schema(&mut self, s: &Schema) {
        if s.explicit {
            self.schema_block(s);
        }
        for d in &s.directives {
            self.dir_def(d);
        }
        for t in &s.types {
            self.type_def(t);
        }
    }
    fn sels(&mut self, s: &[Sel]) {
        self.p("{");
        for s in s {
            self.sel(s);
        }
        self.p("}");
    }
    fn sel(&mut self, s: &Sel) {
        match s {
            Sel::Field(f) => {
                if let Some(a) = &f.alias {
                    self.p(a);
                    self.p(":");
                }
                self.p(&f.name);
                self.args(&f.args);
                self.dirs(&f.dirs);
                if !f.sels.is_empty() {
                    self.sels(&f.sels);
                }
            }
            Sel::Spread(n, d) => {
                self.p("...");
                self.p(n);
                self.dirs(d);
            }
            Sel::Inline(on, d, s) => {
                self.p("...");
                if let Some(on) = on {
                    self.p("on");
                    self.p(on);
                }
                self.dirs(d);
                self.sels(s);
            }
        }
    }
    pub fn def(&mut self, d: &Def) {
        match d {
            Def::Op(o) => {
                if !o.shorthand {
                    self.p(o.kind.kw());
                    if let Some(n) = &o.name {
                        self.p(n);
                    }
                    if !o.vars.is_empty() {
                        self.p("(");
                        for v in &o.vars {
                            self.toks.push(format!("${}", v.name));
                            self.p(":");
                            self.ty(&v.ty);
                            if let Some(d) = &v.default {
                                self.p("=");
                                self.val(d);
                            }
                            self.dirs(&v.dirs);
                        }
                        self.p(")");
                    }
                    self.dirs(&o.dirs);
                }
                self.sels(&o.sels);
            }
            Def::Frag(f) => {
                self.p("fragment");
                self.p(&f.name);
                self.p("on");
                self.p(&f.on);
                self.dirs(&f.dirs);
                self.sels(&f.sels);
            }
        }
    }
}

/// A block string literal whose value is exactly `s`, if there is one of simple shape.
pub fn block_string(s: &str) -> Option<String> {
    if s.is_empty() || s.contains('\r') || s.contains("\"\"\"") && s.contains("\\\"\"\"") {
        return None;
    }
    if s.chars().any(|c| (c as u32) < 0x20 && c != '\n' && c != '\t') {
        return None;
    }
    let lines: Vec<&str> = s.split('\n').collect();
    let blank = |l: &str| l.chars().all(|c| c == ' ' || c == '\t');
    if blank(lines[0]) || blank(lines[lines.len() - 1]) {
        return None;
    }
    if lines.iter().any(|l| !l.is_empty() && blank(l)) {
        return None;
    }
    // common indentation of all lines must be zero when printed on their own lines
    if lines.iter().filter(|l| !l.is_empty()).all(|l| l.starts_with(' ') || l.starts_with('\t')) {
        return None;
    }
    if s.ends_with('\\') {
        return None;
    }
    let body = s.replace("\"\"\"", "\\\"\"\"");
    if body.ends_with('"') || body.ends_with('\\') {
        return Some(format!("\"\"\"\n{body}\n\"\"\""));
    }
    Some(format!("\"\"\"\n{body}\n\"\"\""))
}

/// A block string literal whose value is exactly `s`, with indentation, blank lines and line endings drawn.
pub fn block_string_noisy(s: &str, t: &mut Tape) -> Option<String> {
    block_string(s)?;
    if t.chance(1, 2) {
        return block_string(s);
    }
    let ws = |t: &mut Tape, n: usize| -> String { (0..n).map(|_| if t.chance(1, 4) { '\t' } else { ' ' }).collect() };
    let nl = *t.choose(&["\n", "\r\n", "\r"]);
    let lines: Vec<String> = s.replace("\"\"\"", "\\\"\"\"").split('\n').map(String::from).collect();
    let flush = |l: &String| !l.is_empty() && !l.starts_with([' ', '\t']);
    let mut o = String::from("\"\"\"");
    let ind = t.range(0, 6);
    // the text may start right after the opening quotes when the other lines settle the indentation
    let inline = (lines.len() == 1 || lines[1..].iter().any(flush)) && !lines[0].starts_with('"') && t.chance(1, 2);
    if !inline {
        for _ in 0..t.range(1, 3) {
            let n = t.pick(9);
            o.push_str(&ws(t, n));
            o.push_str(nl);
        }
    }
    for (i, l) in lines.iter().enumerate() {
        if i > 0 {
            o.push_str(nl);
        }
        if l.is_empty() {
            let n = t.pick(ind + 1);
            o.push_str(&ws(t, n));
        } else if i > 0 || !inline {
            let w = ws(t, ind);
            o.push_str(&w);
            o.push_str(l);
        } else {
            o.push_str(l);
        }
    }
    let last = lines.last().unwrap();
    if last.ends_with('"') || last.ends_with('\\') || t.chance(1, 2) {
        for _ in 0..t.range(1, 3) {
            o.push_str(nl);
            let n = t.pick(9);
            o.push_str(&ws(t, n));
        }
    }
    o.push_str("\"\"\"");
    Some(o)
}

/// Join tokens into source text. Returns the text and the byte range of each token.
pub fn join(toks: &[String], t: Option<&mut Tape>) -> (String, Vec<(usize, usize)>) {
    let mut out = String::new();
    let mut spans = Vec::with_capacity(toks.len());
    let mut t = t;
    let wordy_end = |s: &str| s.chars().last().map(|c| c.is_ascii_alphanumeric() || c == '_' || c == '"' || c == '.').unwrap_or(false);
    let wordy_start = |s: &str| s.chars().next().map(|c| c.is_ascii_alphanumeric() || c == '_' || c == '"' || c == '.' || c == '-').unwrap_or(false);
    if let Some(t) = &mut t {
        match t.pick(12) {
            0..=8 => {}
            9 => out.push('\u{feff}'),
            10 => out.push_str("# leading comment\n"),
            _ => out.push_str("\r\n\t, ,"),
        }
    }
    for (i, tok) in toks.iter().enumerate() {
        if i > 0 {
            let need = wordy_end(&toks[i - 1]) && wordy_start(tok);
            let sep: &str = match &mut t {
                None => " ",
                Some(t) => match t.pick(16) {
                    0..=7 => " ",
                    8 | 9 => {
                        if need {
                            " "
                        } else {
                            ""
                        }
                    }
                    10 => "\n",
                    11 => ",",
                    12 => "\r\n  ",
                    13 => " #c \"{\"\" é\n",
                    14 => "\t",
                    _ => ", \r",
                },
            };
            out.push_str(sep);
        }
        let a = out.len();
        out.push_str(tok);
        spans.push((a, out.len()));
    }
    if let Some(t) = &mut t {
        match t.pick(8) {
            0..=5 => {}
            6 => out.push('\n'),
            _ => out.push_str("\n# trailing comment with no newline"),
        }
    }
    (out, spans)
}

pub fn schema_toks(s: &Schema, t: Option<&mut Tape>) -> Vec<String> {
    let mut o = Out { toks: vec![], t };
    o.schema(s);
    o.toks
}
pub fn doc_toks(d: &Doc, t: Option<&mut Tape>) -> Vec<String> {
    let mut o = Out { toks: vec![], t };
    for x in &d.defs {
        o.def(x);
    }
    o.toks
}
pub fn schema_src(s: &Schema, st: Style, t: &mut Tape) -> String {
    match st {
        Style::Plain => pretty(&schema_toks(s, None)),
        Style::Noisy => {
            let toks = schema_toks(s, Some(t));
            join(&toks, Some(t)).0
        }
    }
}
pub fn doc_src(d: &Doc, st: Style, t: &mut Tape) -> String {
    match st {
        Style::Plain => pretty(&doc_toks(d, None)),
        Style::Noisy => {
            let toks = doc_toks(d, Some(t));
            join(&toks, Some(t)).0
        }
    }
}
pub fn schema_plain(s: &Schema) -> String {
    pretty(&schema_toks(s, None))
}
pub fn doc_plain(d: &Doc) -> String {
    pretty(&doc_toks(d, None))
}
/// readable join: newline after `{` and `}`
pub fn pretty(toks: &[String]) -> String {
    let mut o = String::new();
    let mut depth = 0usize;
    for t in toks {
        if t == "}" {
            depth = depth.saturating_sub(1);
        }
        if o.ends_with('\n') {
            for _ in 0..depth {
                o.push_str("  ");
            }
        } else if !o.is_empty() {
            o.push(' ');
        }
        o.push_str(t);
        if t == "{" {
            depth += 1;
        }
        if t == "{" || t == "}" {
            o.push('\n');
        }
    }
    o
}

pub type VarMap = BTreeMap<String, Val>;

pub fn val_show(v: &Val) -> String {
    let mut o = Out { toks: vec![], t: None };
    o.val(v);
    o.toks.join(" ")
}
