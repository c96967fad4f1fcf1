//! Valid-by-construction generators for schemas, values and executable documents.
use crate::model::*;
use crate::tape::Tape;

#[derive(Clone)]
pub struct SchemaCfg {
    pub max_types: usize,
    pub descs: bool,
    pub dirs: bool,
    pub defaults: bool,
    pub connections: bool,
    pub subscription: bool,
    /// strings with unusual characters in descriptions and defaults
    pub weird_strings: bool,
    /// directives may be applied on the schema block
    pub schema_dirs: bool,
    pub lists2: bool,
}
impl Default for SchemaCfg {
    fn default() -> Self {
        SchemaCfg { max_types: 9, descs: false, dirs: true, defaults: true, connections: false, subscription: true, weird_strings: false, schema_dirs: false, lists2: true }
    }
}

pub const FIELD_NAMES: [&str; 14] = ["a", "b", "c", "d", "name", "id", "node", "items", "type", "on", "input", "x1", "_y", "fragment"];
pub const ARG_NAMES: [&str; 10] = ["p", "q", "r", "first", "last", "input", "if", "type", "_p", "q2"];
pub const ENUM_NAMES: [&str; 8] = ["RED", "GREEN", "BLUE", "on", "type", "Asc", "_Z", "V9"];
const STRS: [&str; 8] = ["", "s", "hello world", "a \"quoted\" \\ one", "é🔥", "two\nlines", "tab\tbed", "x/y"];
const WEIRD: [&str; 14] = [
    "ends with quote\"",
    "\"\"\"",
    "a\n  indented\nb",
    "trailing\\",
    "\u{7f}del",
    "back\u{8}space\u{c}",
    "a\n\nb",
    "{curly} # not a comment",
    "\u{fffd}\u{10ffff}",
    "$var @dir ...",
    "tabs\n\tinside",
    "mixed \\\" and \\\\n",
    "non\u{a0}breaking\u{2028}sep",
    "null",
];

pub fn gen_string(t: &mut Tape, weird: bool) -> String {
    if weird && t.chance(1, 3) {
        (*t.choose(&WEIRD)).to_string()
    } else {
        (*t.choose(&STRS)).to_string()
    }
}

fn desc(t: &mut Tape, c: &SchemaCfg) -> Option<String> {
    if c.descs && t.chance(1, 4) {
        let mut s = gen_string(t, c.weird_strings);
        if s.is_empty() {
            s = "d".into();
        }
        Some(s)
    } else {
        None
    }
}

pub fn wrap_ty(t: &mut Tape, base: &str, deep: bool) -> Ty {
    let r = t.chance(1, 3);
    let mut ty = Ty::Named(base.into(), r);
    if t.chance(1, 4) {
        ty = Ty::List(Box::new(ty), t.chance(1, 3));
        let mut more = if deep { 3 } else { 0 };
        while more > 0 && t.chance(1, 3) {
            ty = Ty::List(Box::new(ty), t.chance(1, 2));
            more -= 1;
        }
    }
    ty
}

/// the same type with another nullability somewhere
pub fn flip(t: &mut Tape, ty: &Ty) -> Ty {
    match ty {
        Ty::List(i, r) if t.chance(1, 2) => Ty::List(Box::new(flip(t, i)), *r),
        _ => ty.with_req(!ty.required()),
    }
}

pub struct Names {
    pub scalars: Vec<String>,
    pub enums: Vec<String>,
    pub inputs: Vec<String>,
    pub ifaces: Vec<String>,
    pub objects: Vec<String>,
    pub unions: Vec<String>,
}

fn uniq<'a>(t: &mut Tape, pool: &[&'a str], n: usize) -> Vec<&'a str> {
    let mut v: Vec<&str> = pool.to_vec();
    t.shuffle(&mut v);
    v.truncate(n.max(1));
    v
}

/// constant (variable-free) value valid for `ty`
pub fn const_val(t: &mut Tape, s: &Schema, ty: &Ty, depth: usize, weird: bool) -> Val {
    gen_val(t, s, ty, depth, weird, true, &mut |_, _, _, _| None)
}

type VarFn<'f> = dyn FnMut(&mut Tape, &Ty, bool, bool) -> Option<Val> + 'f;

/// Value valid for `ty`. `vars(t, ty, has_default, one_of)` may supply a variable for a position.
/// How deep the smallest value of a type is; `cap` when it has none that is less deep.
pub fn value_rank(s: &Schema, ty: Ty, cap: usize) -> usize {
    let Ty::Named(n, true) = &ty else { return 0 };
    let Some(TypeDef { kind: Kind::Input(fs), .. }) = s.ty(n) else { return 0 };
    if cap == 0 {
        return 0;
    }
    let td = s.ty(n).unwrap();
    let sub = |f: &InVal, r: bool| value_rank(s, if r { f.ty.with_req(true) } else { f.ty.clone() }, cap - 1);
    1 + if td.one_of() { fs.iter().map(|f| sub(f, true)).min().unwrap_or(0) } else { fs.iter().map(|f| sub(f, false)).max().unwrap_or(0) }
}

pub fn gen_val(t: &mut Tape, s: &Schema, ty: &Ty, depth: usize, weird: bool, implicit_list: bool, vars: &mut VarFn) -> Val {
    if let Some(v) = vars(t, ty, false, false) {
        return v;
    }
    if !ty.required() && t.chance(1, 6) {
        return Val::Null;
    }
    match ty {
        Ty::List(i, _) => {
            if implicit_list && t.chance(1, 5) {
                // single item coerced to a list; null would mean a null list and a variable
                // here would need a list type
                let inner = Ty::Named(i.base().to_string(), true);
                return gen_val(t, s, &inner, 0, weird, true, &mut |_, _, _, _| None);
            }
            let n = if depth == 0 { 0 } else { t.pick(3) };
            Val::List((0..n).map(|_| gen_val(t, s, i, depth.saturating_sub(1), weird, false, vars)).collect())
        }
        Ty::Named(n, _) => match n.as_str() {
            "Int" => Val::Int(*t.choose(&[0, 1, -1, 7, 42, i32::MAX, i32::MIN])),
            "Float" => {
                if t.chance(1, 3) {
                    Val::Int(t.pick(10) as i32)
                } else {
                    Val::Float(*t.choose(&[0.0, 1.5, -2.25, 1e10, 1e-7, 123456.789, 3.0]))
                }
            }
            "String" => Val::Str(gen_string(t, weird)),
            "Boolean" => Val::Bool(t.pick(2) == 1),
            "ID" => {
                if t.chance(1, 2) {
                    Val::Int(t.pick(100) as i32)
                } else {
                    Val::Str(gen_string(t, weird))
                }
            }
            _ => {
                let td = s.ty(n).unwrap_or_else(|| panic!("harness: unknown type {n}"));
                match &td.kind {
                    Kind::Enum(v) => Val::Enum(t.choose(v).name.clone()),
                    Kind::Scalar => match t.pick(if depth == 0 { 3 } else { 5 }) {
                        0 => Val::Int(3),
                        1 => Val::Str("cs".into()),
                        2 => Val::Bool(true),
                        3 => Val::List(vec![Val::Int(1), Val::Str("x".into())]),
                        _ => Val::Obj(vec![("k".into(), Val::Float(0.5)), ("e".into(), Val::Enum("ANY".into()))]),
                    },
                    Kind::Input(fs) => {
                        if td.one_of() {
                            let f = if depth == 0 { fs.iter().min_by_key(|f| value_rank(s, f.ty.with_req(true), 8)).unwrap().clone() } else { t.choose(fs).clone() };
                            let fty = f.ty.with_req(true);
                            let v = gen_val(t, s, &fty, depth.saturating_sub(1), weird, true, &mut |t, ty, d, _| vars(t, ty, d, true));
                            return Val::Obj(vec![(f.name, v)]);
                        }
                        let mut o = vec![];
                        for f in fs.clone() {
                            let must = f.required();
                            if must || (depth > 0 && t.chance(1, 2)) {
                                let has_def = f.default.is_some();
                                let v = match vars(t, &f.ty, has_def, false) {
                                    Some(v) => v,
                                    None => gen_val(t, s, &f.ty, depth.saturating_sub(1), weird, true, vars),
                                };
                                o.push((f.name.clone(), v));
                            }
                        }
                        t.shuffle(&mut o);
                        Val::Obj(o)
                    }
                    _ => panic!("harness: value of output type {n}"),
                }
            }
        },
    }
}

fn apply_dirs(t: &mut Tape, s: &Schema, loc: &str, out: &mut Dirs, skip: &[&str]) {
    let cands: Vec<DirDef> = s.directives.iter().filter(|d| d.locs.iter().any(|l| l == loc) && !skip.contains(&d.name.as_str())).cloned().collect();
    if cands.is_empty() || !t.chance(1, 4) {
        return;
    }
    let n = t.range(1, 2);
    for _ in 0..n {
        let d = t.choose(&cands).clone();
        if out.iter().any(|x| x.name == d.name) && !d.repeatable {
            continue;
        }
        let args = const_args(t, s, &d.args);
        out.push(Dir { name: d.name, args });
    }
}

pub fn const_args(t: &mut Tape, s: &Schema, defs: &[InVal]) -> Vec<(String, Val)> {
    let mut o = vec![];
    for a in defs {
        if a.required() || t.chance(1, 2) {
            o.push((a.name.clone(), const_val(t, s, &a.ty, 1, false)));
        }
    }
    t.shuffle(&mut o);
    o
}

pub fn gen_schema(t: &mut Tape, c: &SchemaCfg) -> Schema {
    let mut s = Schema { desc: None, dirs: vec![], explicit: false, query: "Query".into(), mutation: None, subscription: None, types: vec![], directives: vec![] };
    let m = c.max_types.max(3);
    let n_sc = t.pick(2);
    let n_en = t.range(0, 2);
    let n_in = t.range(0, (m / 3).max(1));
    let n_if = t.range(0, (m / 3).max(1));
    let n_ob = t.range(1, (m / 2).max(2));
    let n_un = t.range(0, 2);
    let mk = |p: &str, n: usize| (0..n).map(|i| format!("{p}{i}")).collect::<Vec<_>>();
    let names = Names { scalars: mk("Sc", n_sc), enums: mk("En", n_en), inputs: mk("In", n_in), ifaces: mk("If", n_if), objects: mk("Ob", n_ob), unions: mk("Un", n_un) };

    // leaf types
    for n in &names.scalars {
        s.types.push(TypeDef { name: n.clone(), desc: desc(t, c), dirs: vec![], kind: Kind::Scalar });
    }
    for n in &names.enums {
        let k = t.range(1, 4);
        let vals = uniq(t, &ENUM_NAMES, k).into_iter().map(|v| EnumVal { name: v.into(), desc: desc(t, c), dirs: vec![] }).collect();
        s.types.push(TypeDef { name: n.clone(), desc: desc(t, c), dirs: vec![], kind: Kind::Enum(vals) });
    }
    // input objects: a required reference only to an earlier one, so that every one is inhabited
    for (i, n) in names.inputs.iter().enumerate() {
        let one_of = t.chance(1, 4);
        let k = t.range(1, 4);
        let mut fs = vec![];
        for f in uniq(t, &FIELD_NAMES, k) {
            let base = pick_input_base(t, &names, None);
            let mut ty = wrap_ty(t, &base, c.lists2);
            if let Some(j) = names.inputs.iter().position(|x| *x == base) {
                if j >= i && ty.required() {
                    ty = ty.with_req(false);
                }
            }
            if one_of {
                ty = ty.with_req(false);
                // a oneOf object needs an inhabited member
                if names.inputs.iter().position(|x| *x == ty.base()).map(|j| j >= i).unwrap_or(false) {
                    ty = Ty::named("Int");
                }
            }
            fs.push(InVal { name: f.into(), desc: desc(t, c), ty, default: None, dirs: vec![] });
        }
        let dirs = if one_of { vec![Dir { name: "oneOf".into(), args: vec![] }] } else { vec![] };
        s.types.push(TypeDef { name: n.clone(), desc: desc(t, c), dirs, kind: Kind::Input(fs) });
    }
    // composite types: interface field pool with globally fixed types keeps implementations valid
    let n_pool = t.range(1, 5);
    let mut pool: Vec<FieldDef> = vec![];
    for f in uniq(t, &FIELD_NAMES, n_pool) {
        let mut fd = gen_field(t, c, &s, &names, f);
        if t.chance(1, 2) {
            fd.ty = fd.ty.with_req(false);
        }
        pool.push(fd);
    }
    let mut iface_defs: Vec<(String, Vec<String>, Vec<FieldDef>)> = vec![];
    for n in &names.ifaces {
        let mut impls: Vec<String> = vec![];
        if !iface_defs.is_empty() && t.chance(1, 3) {
            let p = t.pick(iface_defs.len());
            impls.push(iface_defs[p].0.clone());
            for x in &iface_defs[p].1 {
                if !impls.contains(x) {
                    impls.push(x.clone());
                }
            }
        }
        let mut fs: Vec<FieldDef> = vec![];
        for i in &impls {
            for f in &iface_defs.iter().find(|d| d.0 == *i).unwrap().2 {
                if !fs.iter().any(|x| x.name == f.name) {
                    fs.push(f.clone());
                }
            }
        }
        let k = t.range(1, 3);
        for _ in 0..k {
            let f = t.choose(&pool).clone();
            if !fs.iter().any(|x| x.name == f.name) {
                fs.push(f);
            }
        }
        iface_defs.push((n.clone(), impls, fs));
    }
    for (n, i, f) in &iface_defs {
        s.types.push(TypeDef { name: n.clone(), desc: desc(t, c), dirs: vec![], kind: Kind::Interface(i.clone(), f.clone()) });
    }
    let mut objs: Vec<(String, Vec<String>)> = vec![];
    for n in &names.objects {
        let mut impls: Vec<String> = vec![];
        if !iface_defs.is_empty() {
            let k = t.pick(3);
            for _ in 0..k {
                let p = t.pick(iface_defs.len());
                for x in std::iter::once(&iface_defs[p].0).chain(&iface_defs[p].1) {
                    if !impls.contains(x) {
                        impls.push(x.clone());
                    }
                }
            }
        }
        objs.push((n.clone(), impls));
    }
    let union_defs: Vec<(String, Vec<String>)> = names
        .unions
        .iter()
        .map(|n| {
            let k = t.range(1, 3);
            let mut v: Vec<&str> = names.objects.iter().map(|x| x.as_str()).collect();
            t.shuffle(&mut v);
            v.truncate(k);
            (n.clone(), v.into_iter().map(String::from).collect())
        })
        .collect();
    for (n, impls) in &objs {
        let mut fs: Vec<FieldDef> = vec![];
        for i in impls {
            for f in &iface_defs.iter().find(|d| d.0 == *i).unwrap().2 {
                if fs.iter().any(|x| x.name == f.name) {
                    continue;
                }
                let mut f = f.clone();
                // covariant strengthening
                match t.pick(6) {
                    4 => f.ty = f.ty.with_req(true),
                    5 => {
                        let b = f.ty.base().to_string();
                        let subs: Vec<String> = if names.ifaces.contains(&b) {
                            objs.iter().filter(|o| o.1.contains(&b)).map(|o| o.0.clone()).collect()
                        } else if let Some(u) = union_defs.iter().find(|u| u.0 == b) {
                            u.1.clone()
                        } else {
                            vec![]
                        };
                        if !subs.is_empty() {
                            let x = t.choose(&subs).clone();
                            f.ty = f.ty.rebase(&x);
                        }
                    }
                    _ => {}
                }
                if t.chance(1, 6) {
                    // extra optional argument
                    let an = *t.choose(&ARG_NAMES);
                    if !f.args.iter().any(|a| a.name == an) {
                        let mut a = gen_in(t, c, &names, an);
                        a.ty = a.ty.with_req(false);
                        f.args.push(a);
                    }
                }
                fs.push(f);
            }
        }
        let k = t.range(if fs.is_empty() { 1 } else { 0 }, 4);
        for f in uniq(t, &FIELD_NAMES, k.max(1)).into_iter().take(k) {
            if !fs.iter().any(|x| x.name == f) {
                let fd = gen_field(t, c, &s, &names, f);
                fs.push(fd);
            }
        }
        t.shuffle(&mut fs);
        s.types.push(TypeDef { name: n.clone(), desc: desc(t, c), dirs: vec![], kind: Kind::Object(impls.clone(), fs) });
    }
    for (n, mem) in union_defs {
        s.types.push(TypeDef { name: n, desc: desc(t, c), dirs: vec![], kind: Kind::Union(mem) });
    }
    // roots
    s.explicit = t.chance(1, 3);
    if s.explicit {
        s.desc = desc(t, c);
        if t.chance(1, 2) {
            s.query = "RootQ".into();
        }
    }
    let mut root = |t: &mut Tape, s: &mut Schema, n: &str| {
        let k = t.range(1, 5);
        let mut fs: Vec<FieldDef> = vec![];
        // reach composite types with good probability
        let comp: Vec<String> = names.objects.iter().chain(&names.ifaces).chain(&names.unions).cloned().collect();
        for f in uniq(t, &FIELD_NAMES, k) {
            let mut fd = gen_field(t, c, s, &names, f);
            if t.chance(2, 3) {
                let b = t.choose(&comp).clone();
                fd.ty = fd.ty.rebase(&b);
            }
            fs.push(fd);
        }
        s.types.push(TypeDef { name: n.into(), desc: desc(t, c), dirs: vec![], kind: Kind::Object(vec![], fs) });
    };
    let q = s.query.clone();
    root(t, &mut s, &q);
    if t.chance(1, 3) {
        let n = if s.explicit { "RootM" } else { "Mutation" };
        root(t, &mut s, n);
        s.mutation = Some(n.into());
    }
    if c.subscription && t.chance(1, 4) {
        let n = if s.explicit { "RootS" } else { "Subscription" };
        root(t, &mut s, n);
        s.subscription = Some(n.into());
    }
    if c.connections {
        add_connections(t, &mut s, &names);
    }
    // directives
    if c.dirs {
        let k = t.pick(3);
        const LOCS: [&str; 19] = [
            "FIELD", "QUERY", "MUTATION", "SUBSCRIPTION", "FRAGMENT_DEFINITION", "FRAGMENT_SPREAD", "INLINE_FRAGMENT", "VARIABLE_DEFINITION", "OBJECT", "FIELD_DEFINITION", "ARGUMENT_DEFINITION", "INTERFACE", "UNION", "ENUM", "ENUM_VALUE", "INPUT_OBJECT", "INPUT_FIELD_DEFINITION", "SCALAR", "SCHEMA",
        ];
        for i in 0..k {
            let n = t.range(1, 9);
            let locs = uniq(t, &LOCS, n).into_iter().map(String::from).collect();
            let na = t.pick(3);
            let mut args = vec![];
            for a in uniq(t, &ARG_NAMES, na.max(1)).into_iter().take(na) {
                // arguments of directives: leaf or input types that do not themselves carry directives
                let b = if t.chance(1, 3) { pick_input_base(t, &names, None) } else { BUILTIN_SCALARS[t.pick(5)].to_string() };
                let ty = wrap_ty(t, &b, false);
                args.push(InVal { name: a.into(), desc: desc(t, c), ty, default: None, dirs: vec![] });
            }
            s.directives.push(DirDef { name: format!("dir{i}"), desc: desc(t, c), args, repeatable: t.chance(1, 4), locs });
        }
    }
    // defaults (after all types exist)
    if c.defaults {
        let snap = s.clone();
        let dig = |t: &mut Tape, v: &mut InVal| {
            if t.chance(1, 4) {
                v.default = Some(const_val(t, &snap, &v.ty, 1, c.weird_strings));
            }
        };
        let no_def: Vec<String> = s.types.iter().filter(|t| t.one_of()).map(|t| t.name.clone()).collect();
        for td in &mut s.types {
            if let Kind::Input(fs) = &mut td.kind {
                if no_def.contains(&td.name) {
                    continue;
                }
                for f in fs.iter_mut() {
                    // input field defaults only of leaf types: no default cycles
                    if !f.ty.base().starts_with("In") {
                        if t.chance(1, 4) {
                            f.default = Some(const_val(t, &snap, &f.ty, 1, c.weird_strings));
                        }
                    }
                }
            }
        }
        for td in &mut s.types {
            if let Some(fs) = td.fields_mut() {
                for f in fs.iter_mut() {
                    for a in &mut f.args {
                        dig(t, a);
                    }
                }
            }
        }
        for d in &mut s.directives {
            for a in &mut d.args {
                dig(t, a);
            }
        }
    }
    if c.dirs {
        decorate(t, &mut s, c);
    }
    crate::odd::schema(t, &mut s);
    s
}

fn decorate(t: &mut Tape, s: &mut Schema, c: &SchemaCfg) {
    let snap = s.clone();
    let dep = |t: &mut Tape, out: &mut Dirs| {
        if t.chance(1, 8) {
            let args = if t.chance(1, 2) { vec![("reason".to_string(), Val::Str(gen_string(t, c.weird_strings)))] } else { vec![] };
            out.push(Dir { name: "deprecated".into(), args });
        }
    };
    if s.explicit && c.schema_dirs {
        apply_dirs(t, &snap, "SCHEMA", &mut s.dirs, &[]);
    }
    for td in &mut s.types {
        let loc = td.kind_name().to_string();
        apply_dirs(t, &snap, &loc, &mut td.dirs, &[]);
        if td.is_scalar() && t.chance(1, 4) {
            td.dirs.push(Dir { name: "specifiedBy".into(), args: vec![("url".into(), Val::Str("https://example.com".into()))] });
        }
        match &mut td.kind {
            Kind::Enum(v) => {
                for v in v {
                    apply_dirs(t, &snap, "ENUM_VALUE", &mut v.dirs, &[]);
                    dep(t, &mut v.dirs);
                }
            }
            Kind::Input(f) => {
                for f in f {
                    apply_dirs(t, &snap, "INPUT_FIELD_DEFINITION", &mut f.dirs, &[]);
                    if !f.required() {
                        dep(t, &mut f.dirs);
                    }
                }
            }
            Kind::Object(_, fs) | Kind::Interface(_, fs) => {
                for f in fs {
                    apply_dirs(t, &snap, "FIELD_DEFINITION", &mut f.dirs, &[]);
                    dep(t, &mut f.dirs);
                    for a in &mut f.args {
                        apply_dirs(t, &snap, "ARGUMENT_DEFINITION", &mut a.dirs, &[]);
                        if !a.required() {
                            dep(t, &mut a.dirs);
                        }
                    }
                }
            }
            _ => {}
        }
    }
}

fn pick_input_base(t: &mut Tape, n: &Names, _s: Option<()>) -> String {
    match t.pick(8) {
        0..=2 => BUILTIN_SCALARS[t.pick(5)].to_string(),
        3 if !n.enums.is_empty() => t.choose(&n.enums).clone(),
        4 if !n.scalars.is_empty() => t.choose(&n.scalars).clone(),
        5..=7 if !n.inputs.is_empty() => t.choose(&n.inputs).clone(),
        _ => "Int".into(),
    }
}

fn pick_output_base(t: &mut Tape, n: &Names) -> String {
    match t.pick(10) {
        0..=2 => BUILTIN_SCALARS[t.pick(5)].to_string(),
        3 if !n.enums.is_empty() => t.choose(&n.enums).clone(),
        4 if !n.scalars.is_empty() => t.choose(&n.scalars).clone(),
        5 | 6 if !n.ifaces.is_empty() => t.choose(&n.ifaces).clone(),
        7 if !n.unions.is_empty() => t.choose(&n.unions).clone(),
        _ => t.choose(&n.objects).clone(),
    }
}

fn gen_in(t: &mut Tape, c: &SchemaCfg, n: &Names, name: &str) -> InVal {
    let b = if name == "first" || name == "last" { "Int".into() } else { pick_input_base(t, n, None) };
    InVal { name: name.into(), desc: desc(t, c), ty: wrap_ty(t, &b, c.lists2), default: None, dirs: vec![] }
}

fn gen_field(t: &mut Tape, c: &SchemaCfg, _s: &Schema, n: &Names, name: &str) -> FieldDef {
    let b = pick_output_base(t, n);
    let ty = wrap_ty(t, &b, c.lists2);
    let na = if t.chance(1, 3) { t.range(1, 3) } else { 0 };
    let args = if na > 0 { uniq(t, &ARG_NAMES, na).into_iter().map(|a| gen_in(t, c, n, a)).collect() } else { vec![] };
    FieldDef { name: name.into(), desc: desc(t, c), args, ty, dirs: vec![] }
}

fn add_connections(t: &mut Tape, s: &mut Schema, n: &Names) {
    let arg = |n: &str| InVal { name: n.into(), desc: None, ty: Ty::named("Int"), default: None, dirs: vec![] };
    let f = |n: &str, ty: Ty, args: Vec<InVal>| FieldDef { name: n.into(), desc: None, args, ty, dirs: vec![] };
    let targets = n.objects.clone();
    let k = t.range(1, 2);
    let mut conns = vec![];
    for i in 0..k {
        let x = t.choose(&targets).clone();
        let cn = format!("Co{i}Connection");
        let en = format!("Co{i}Edge");
        if t.chance(1, 4) {
            // a scalar-item connection
        }
        let mut fs = vec![f("nodes", Ty::List(Box::new(Ty::Named(x.clone(), true)), true), vec![]), f("pageInfo", Ty::Named("PageInfo".into(), true), vec![])];
        fs.push(f("edges", Ty::List(Box::new(Ty::Named(en.clone(), true)), true), vec![]));
        if t.chance(1, 2) {
            fs.push(f("total", Ty::named("Int"), vec![]));
        }
        s.types.push(TypeDef { name: cn.clone(), desc: None, dirs: vec![], kind: Kind::Object(vec![], fs) });
        s.types.push(TypeDef { name: en, desc: None, dirs: vec![], kind: Kind::Object(vec![], vec![f("node", Ty::Named(x, true), vec![]), f("cursor", Ty::named("String"), vec![])]) });
        conns.push(cn);
    }
    s.types.push(TypeDef { name: "PageInfo".into(), desc: None, dirs: vec![], kind: Kind::Object(vec![], vec![f("hasNext", Ty::named("Boolean"), vec![])]) });
    // fields returning connections on the query root and on some objects
    let q = s.query.clone();
    let mut holders = vec![q];
    holders.extend(targets.iter().filter(|_| t.chance(1, 2)).cloned().collect::<Vec<_>>());
    for h in holders {
        let cn = t.choose(&conns).clone();
        let name = format!("conn{}", t.pick(3));
        let mut args = vec![arg("first"), arg("last")];
        if t.chance(1, 4) {
            args[0].default = Some(Val::Int(5));
        }
        let td = s.ty_mut(&h).unwrap();
        if let Some(fs) = td.fields_mut() {
            if !fs.iter().any(|x| x.name == name) {
                fs.push(f(&name, Ty::Named(cn, t.chance(1, 2)), args));
            }
        }
    }
    // and on an interface with all that implement it
    let ifs: Vec<String> = s.types.iter().filter(|x| x.is_interface()).map(|x| x.name.clone()).collect();
    if !ifs.is_empty() && t.chance(2, 3) {
        let i = t.choose(&ifs).clone();
        let name = format!("conn{}", t.pick(3));
        let cn = t.choose(&conns).clone();
        let free = |x: &TypeDef| !x.fields().iter().any(|f| f.name == name);
        let holders: Vec<String> = s.types.iter().filter(|x| x.name == i || matches!(&x.kind, Kind::Object(j, _) | Kind::Interface(j, _) if j.contains(&i))).map(|x| x.name.clone()).collect();
        if holders.iter().all(|h| s.ty(h).is_some_and(free)) {
            for h in holders {
                let mut args = vec![arg("first"), arg("last")];
                for a in &mut args {
                    if t.chance(1, 3) {
                        a.default = Some(Val::Int(*t.choose(&[1, 5, 40])));
                    }
                }
                if let Some(fs) = s.ty_mut(&h).and_then(|x| x.fields_mut()) {
                    fs.push(f(&name, Ty::named(&cn), args));
                }
            }
        }
    }
}

// ------------------------------------------------------------------ documents

#[derive(Clone)]
pub struct DocCfg {
    pub max_depth: usize,
    pub max_sels: usize,
    pub max_ops: usize,
    pub max_frags: usize,
    pub dirs: bool,
    pub vars: bool,
    pub weird_strings: bool,
    pub aliases: bool,
    /// aliases drawn from a small shared pool (merging-heavy documents)
    pub merge_heavy: bool,
    pub introspection: bool,
    /// budget of fields
    pub budget: usize,
    /// allow variables inside list/object literals
    pub nested_vars: bool,
}
impl Default for DocCfg {
    fn default() -> Self {
        DocCfg { max_depth: 4, max_sels: 4, max_ops: 3, max_frags: 4, dirs: true, vars: true, weird_strings: false, aliases: true, merge_heavy: false, introspection: false, budget: 60, nested_vars: true }
    }
}

struct DG<'a> {
    s: &'a Schema,
    c: &'a DocCfg,
    frags: Vec<FragG>,
    budget: usize,
    /// variables available in the document: name -> (type, default). Fixed per document so that
    /// fragments can use them from any operation.
    vars: Vec<VarDef>,
    op_vars: bool,
}
struct FragG {
    name: String,
    on: String,
}

/// May a variable of type `vt` with default `vd` be used at a position of type `lt` with default `ld`?
pub fn var_usable(vt: &Ty, vd: Option<&Val>, lt: &Ty, ld: bool) -> bool {
    if lt.required() && !vt.required() {
        let has_nn_default = matches!(vd, Some(v) if *v != Val::Null);
        if !has_nn_default && !ld {
            return false;
        }
        return compat(vt, &lt.with_req(false));
    }
    compat(vt, lt)
}
pub fn compat(v: &Ty, l: &Ty) -> bool {
    if l.required() {
        return v.required() && compat(&v.with_req(false), &l.with_req(false));
    }
    if v.required() {
        return compat(&v.with_req(false), l);
    }
    match (v, l) {
        (Ty::List(a, _), Ty::List(b, _)) => compat(a, b),
        (Ty::Named(a, _), Ty::Named(b, _)) => a == b,
        _ => false,
    }
}

impl<'a> DG<'a> {
    fn value(&mut self, t: &mut Tape, ty: &Ty, has_default: bool, allow_vars: bool) -> Val {
        let vars = &self.vars;
        let on = self.op_vars && allow_vars;
        let nested = self.c.nested_vars;
        let mut top = true;
        if on && !vars.is_empty() && t.chance(1, 3) {
            let c: Vec<&VarDef> = vars.iter().filter(|v| var_usable(&v.ty, v.default.as_ref(), ty, has_default)).collect();
            if !c.is_empty() {
                return Val::Var(t.choose(&c).name.clone());
            }
        }
        gen_val(t, self.s, ty, 2, self.c.weird_strings, true, &mut |t, ty, d, one_of| {
            if std::mem::take(&mut top) || !on || !nested || vars.is_empty() || !t.chance(1, 4) {
                return None;
            }
            let c: Vec<&VarDef> = vars.iter().filter(|v| var_usable(&v.ty, v.default.as_ref(), ty, d) && (!one_of || v.ty.required())).collect();
            if c.is_empty() {
                None
            } else {
                Some(Val::Var(t.choose(&c).name.clone()))
            }
        })
    }
    fn args(&mut self, t: &mut Tape, defs: &[InVal], allow_vars: bool) -> Vec<(String, Val)> {
        let mut o = vec![];
        for a in defs {
            if a.required() || t.chance(1, 2) {
                let v = self.value(t, &a.ty, a.default.is_some(), allow_vars);
                o.push((a.name.clone(), v));
            }
        }
        t.shuffle(&mut o);
        o
    }
    fn dirs(&mut self, t: &mut Tape, loc: &str, allow_vars: bool) -> Dirs {
        let mut out = vec![];
        if !self.c.dirs || !t.chance(1, 6) {
            return out;
        }
        let mut cands: Vec<DirDef> = self.s.directives.iter().filter(|d| d.locs.iter().any(|l| l == loc)).cloned().collect();
        if ["FIELD", "FRAGMENT_SPREAD", "INLINE_FRAGMENT"].contains(&loc) {
            for n in ["skip", "include"] {
                cands.push(DirDef { name: n.into(), desc: None, args: vec![InVal { name: "if".into(), desc: None, ty: Ty::Named("Boolean".into(), true), default: None, dirs: vec![] }], repeatable: false, locs: vec![] });
            }
        }
        if cands.is_empty() {
            return out;
        }
        let n = t.range(1, 2);
        for _ in 0..n {
            let d = t.choose(&cands).clone();
            if out.iter().any(|x: &Dir| x.name == d.name) && !d.repeatable {
                continue;
            }
            let args = self.args(t, &d.args, allow_vars);
            out.push(Dir { name: d.name, args });
        }
        out
    }
    fn sels(&mut self, t: &mut Tape, parent: &str, depth: usize, avail: usize) -> Vec<Sel> {
        let n = t.range(1, self.c.max_sels);
        let mut out = vec![];
        for _ in 0..n {
            if self.budget == 0 {
                break;
            }
            self.budget -= 1;
            if let Some(s) = self.sel(t, parent, depth, avail) {
                out.push(s);
            }
        }
        if out.is_empty() {
            out.push(Sel::Field(FieldSel { alias: None, name: "__typename".into(), args: vec![], dirs: vec![], sels: vec![] }));
        }
        out
    }
    /// `avail`: only fragments with index >= avail may be spread (acyclic)
    fn sel(&mut self, t: &mut Tape, parent: &str, depth: usize, avail: usize) -> Option<Sel> {
        match t.pick(10) {
            7 if depth > 0 => {
                // inline fragment
                let on = if t.chance(1, 4) {
                    None
                } else {
                    let c: Vec<String> = self.s.types.iter().filter(|x| x.is_composite() && self.s.overlap(&x.name, parent)).map(|x| x.name.clone()).collect();
                    if c.is_empty() {
                        None
                    } else {
                        Some(t.choose(&c).clone())
                    }
                };
                let p = on.clone().unwrap_or(parent.to_string());
                let d = self.dirs(t, "INLINE_FRAGMENT", true);
                Some(Sel::Inline(on, d, self.sels(t, &p, depth - 1, avail)))
            }
            8 | 9 => {
                let c: Vec<String> = self.frags[avail.min(self.frags.len())..].iter().filter(|f| self.s.overlap(&f.on, parent)).map(|f| f.name.clone()).collect();
                if c.is_empty() {
                    return self.field(t, parent, depth, avail);
                }
                let n = t.choose(&c).clone();
                let d = self.dirs(t, "FRAGMENT_SPREAD", true);
                Some(Sel::Spread(n, d))
            }
            _ => self.field(t, parent, depth, avail),
        }
    }
    fn field(&mut self, t: &mut Tape, parent: &str, depth: usize, avail: usize) -> Option<Sel> {
        let td = self.s.ty(parent)?;
        let mut fs: Vec<FieldDef> = td.fields().to_vec();
        if depth == 0 {
            fs.retain(|f| self.s.is_leaf(f.ty.base()));
        }
        fs.push(FieldDef { name: "__typename".into(), desc: None, args: vec![], ty: Ty::Named("String".into(), true), dirs: vec![] });
        let f = t.choose(&fs).clone();
        let alias = if self.c.aliases && t.chance(1, if self.c.merge_heavy { 2 } else { 4 }) {
            Some(if self.c.merge_heavy {
                (*t.choose(&["m", "n"])).to_string()
            } else if t.chance(1, 5) {
                // another field's name
                fs[t.pick(fs.len())].name.trim_start_matches("__").to_string()
            } else {
                format!("al{}", t.pick(6))
            })
        } else {
            None
        };
        let args = self.args(t, &f.args, true);
        let dirs = self.dirs(t, "FIELD", true);
        let sels = if self.s.is_composite(f.ty.base()) { self.sels(t, f.ty.base(), depth - 1, avail) } else { vec![] };
        Some(Sel::Field(FieldSel { alias, name: f.name, args, dirs, sels }))
    }
}

pub fn input_types(s: &Schema) -> Vec<String> {
    let mut v: Vec<String> = BUILTIN_SCALARS.iter().map(|x| x.to_string()).collect();
    v.extend(s.types.iter().filter(|t| t.is_input() || t.is_enum() || t.is_scalar()).map(|t| t.name.clone()));
    v
}

/// types of argument positions in the schema, so that variables have somewhere to go
fn arg_types(s: &Schema) -> Vec<Ty> {
    let mut v = vec![];
    for t in &s.types {
        for f in t.fields() {
            for a in &f.args {
                v.push(a.ty.clone());
            }
        }
        for f in t.in_fields() {
            v.push(f.ty.clone());
        }
    }
    v.push(Ty::Named("Boolean".into(), true));
    v
}

pub fn gen_doc(t: &mut Tape, s: &Schema, c: &DocCfg) -> Doc {
    let mut g = DG { s, c, frags: vec![], budget: c.budget, vars: vec![], op_vars: c.vars };
    // variables
    if c.vars {
        let n = if t.chance(1, 24) { t.range(5, 24) } else { t.pick(5) };
        let at = arg_types(s);
        let it = input_types(s);
        for i in 0..n {
            let mut ty = if t.chance(4, 5) { t.choose(&at).clone() } else { let b = t.choose(&it).clone(); wrap_ty(t, &b, true) };
            if t.chance(1, 5) {
                ty = flip(t, &ty);
            }
            let default = if t.chance(1, 4) { Some(const_val(t, s, &ty, 1, c.weird_strings)) } else { None };
            g.vars.push(VarDef { name: format!("v{i}"), ty, default, dirs: vec![] });
        }
    }
    // fragment headers first (acyclic by index)
    let comps: Vec<String> = s.types.iter().filter(|x| x.is_composite() && !s.possible(&x.name).is_empty()).map(|x| x.name.clone()).collect();
    let nf = if c.max_frags > 1 && t.chance(1, 24) { t.range(c.max_frags, 3 * c.max_frags) } else { t.range(0, c.max_frags) };
    for i in 0..nf {
        g.frags.push(FragG { name: format!("F{i}"), on: t.choose(&comps).clone() });
    }
    let mut frags: Vec<Frag> = vec![];
    for i in 0..nf {
        let (name, on) = (g.frags[i].name.clone(), g.frags[i].on.clone());
        let dirs = g.dirs(t, "FRAGMENT_DEFINITION", true);
        let sels = g.sels(t, &on, c.max_depth.saturating_sub(1), i + 1);
        frags.push(Frag { name, on, dirs, sels });
    }
    let no = if c.max_ops > 1 && t.chance(1, 24) { t.range(c.max_ops, 4 * c.max_ops) } else { t.range(1, c.max_ops) };
    let mut ops = vec![];
    for i in 0..no {
        let mut kinds = vec![OpKind::Query];
        if s.mutation.is_some() {
            kinds.push(OpKind::Mutation);
        }
        if s.subscription.is_some() {
            kinds.push(OpKind::Subscription);
        }
        let kind = *t.choose(&kinds);
        let root = s.root(kind).unwrap().to_string();
        let loc = match kind {
            OpKind::Query => "QUERY",
            OpKind::Mutation => "MUTATION",
            OpKind::Subscription => "SUBSCRIPTION",
        };
        let sels = if kind == OpKind::Subscription {
            // exactly one root field, not an introspection field, no skip/include
            let f = t.choose(s.ty(&root).unwrap().fields()).clone();
            let args = g.args(t, &f.args, true);
            let sels = if s.is_composite(f.ty.base()) { g.sels(t, f.ty.base(), c.max_depth - 1, 0) } else { vec![] };
            vec![Sel::Field(FieldSel { alias: None, name: f.name, args, dirs: vec![], sels })]
        } else {
            g.budget = g.budget.max(8);
            let mut sels = g.sels(t, &root, c.max_depth, 0);
            if c.max_sels > 1 && t.chance(1, 24) {
                crate::odd::wide(t, &mut sels);
            }
            sels
        };
        let dirs = g.dirs(t, loc, true);
        let anon = no == 1 && t.chance(1, 3);
        ops.push(Op { kind, shorthand: false, name: if anon { None } else { Some(format!("Op{i}")) }, vars: vec![], dirs, sels });
    }
    // variable definitions per operation = variables used transitively; drop unused fragments
    let mut doc = Doc { defs: ops.into_iter().map(Def::Op).chain(frags.into_iter().map(Def::Frag)).collect() };
    prune_unused_frags(&mut doc);
    resolve_conflicts(t, s, &mut doc);
    prune_unused_frags(&mut doc);
    let allv = g.vars.clone();
    define_used_vars(&mut doc, &allv);
    if c.dirs && c.vars {
        for d in &mut doc.defs {
            if let Def::Op(o) = d {
                for v in &mut o.vars {
                    v.dirs = g.dirs(t, "VARIABLE_DEFINITION", false);
                }
            }
        }
    }
    for d in &mut doc.defs {
        if let Def::Op(o) = d {
            if o.kind == OpKind::Query && o.name.is_none() && o.vars.is_empty() && o.dirs.is_empty() && t.chance(1, 2) {
                o.shorthand = true;
            }
        }
    }
    t.shuffle(&mut doc.defs);
    crate::odd::doc(t, &mut doc);
    doc
}

pub fn val_vars(v: &Val, out: &mut Vec<String>) {
    match v {
        Val::Var(n) => out.push(n.clone()),
        Val::List(l) => l.iter().for_each(|x| val_vars(x, out)),
        Val::Obj(o) => o.iter().for_each(|(_, x)| val_vars(x, out)),
        _ => {}
    }
}
pub fn dirs_vars(d: &[Dir], out: &mut Vec<String>) {
    for d in d {
        for (_, v) in &d.args {
            val_vars(v, out);
        }
    }
}
/// variables used by selections, following fragments
pub fn sels_vars(doc: &Doc, s: &[Sel], seen: &mut Vec<String>, out: &mut Vec<String>) {
    for x in s {
        match x {
            Sel::Field(f) => {
                for (_, v) in &f.args {
                    val_vars(v, out);
                }
                dirs_vars(&f.dirs, out);
                sels_vars(doc, &f.sels, seen, out);
            }
            Sel::Inline(_, d, s) => {
                dirs_vars(d, out);
                sels_vars(doc, s, seen, out);
            }
            Sel::Spread(n, d) => {
                dirs_vars(d, out);
                if !seen.contains(n) {
                    seen.push(n.clone());
                    if let Some(f) = doc.frag(n) {
                        dirs_vars(&f.dirs, out);
                        sels_vars(doc, &f.sels, seen, out);
                    }
                }
            }
        }
    }
}
pub fn op_used_vars(doc: &Doc, o: &Op) -> Vec<String> {
    let mut out = vec![];
    dirs_vars(&o.dirs, &mut out);
    sels_vars(doc, &o.sels, &mut vec![], &mut out);
    out.sort();
    out.dedup();
    out
}
fn define_used_vars(doc: &mut Doc, all: &[VarDef]) {
    let used: Vec<Vec<String>> = doc.ops().map(|o| op_used_vars(doc, o)).collect();
    let mut i = 0;
    for d in &mut doc.defs {
        if let Def::Op(o) = d {
            o.vars = all.iter().filter(|v| used[i].contains(&v.name)).cloned().collect();
            i += 1;
        }
    }
}
pub fn spreads(s: &[Sel], out: &mut Vec<String>) {
    for x in s {
        match x {
            Sel::Field(f) => spreads(&f.sels, out),
            Sel::Inline(_, _, s) => spreads(s, out),
            Sel::Spread(n, _) => out.push(n.clone()),
        }
    }
}
/// fragments reachable from operations
pub fn used_frags(doc: &Doc) -> Vec<String> {
    let mut used: Vec<String> = vec![];
    let mut todo = vec![];
    for o in doc.ops() {
        spreads(&o.sels, &mut todo);
    }
    while let Some(n) = todo.pop() {
        if !used.contains(&n) {
            if let Some(f) = doc.frag(&n) {
                spreads(&f.sels, &mut todo);
            }
            used.push(n);
        }
    }
    used
}
fn prune_unused_frags(doc: &mut Doc) {
    loop {
        // bluejay's rule counts any spread, also from unused fragments; iterate to a fixpoint
        let used = used_frags(doc);
        let n = doc.defs.len();
        doc.defs.retain(|d| match d {
            Def::Frag(f) => used.contains(&f.name),
            _ => true,
        });
        if doc.defs.len() == n {
            break;
        }
    }
}

/// Give conflicting fields fresh aliases until no two fields of the document conflict.
fn resolve_conflicts(_t: &mut Tape, s: &Schema, doc: &mut Doc) {
    let mut fresh = 0;
    for _ in 0..400 {
        match crate::refval::first_conflict(s, doc) {
            None => return,
            Some((path_a, path_b)) => {
                // rename the later field (by address order in the document: second path)
                let p = if fresh % 7 == 6 { path_a } else { path_b };
                if let Some(f) = field_at(doc, &p) {
                    f.alias = Some(format!("u{fresh}"));
                }
                fresh += 1;
            }
        }
    }
    // give up: drop all but one selection everywhere
    for d in &mut doc.defs {
        let sels = match d {
            Def::Op(o) => &mut o.sels,
            Def::Frag(f) => &mut f.sels,
        };
        *sels = vec![Sel::Field(FieldSel { alias: None, name: "__typename".into(), args: vec![], dirs: vec![], sels: vec![] })];
    }
}

/// path: definition index followed by selection indices
pub fn field_at<'d>(doc: &'d mut Doc, path: &[usize]) -> Option<&'d mut FieldSel> {
    let mut cur = match &mut doc.defs[path[0]] {
        Def::Op(o) => &mut o.sels,
        Def::Frag(f) => &mut f.sels,
    };
    for (k, i) in path[1..].iter().enumerate() {
        let last = k + 2 == path.len();
        match cur.get_mut(*i)? {
            Sel::Field(f) => {
                if last {
                    return Some(f);
                }
                cur = &mut f.sels;
            }
            Sel::Inline(_, _, s) => cur = s,
            Sel::Spread(..) => return None,
        }
    }
    None
}
