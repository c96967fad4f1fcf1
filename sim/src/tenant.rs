//! Tenants (sets of enabled feature groups): what each may see of a schema, computed on the model,
//! and the warden that tells bluejay the same thing element by element.
use crate::model::*;
use crate::runner::Injected;
use crate::tape::Tape;
use crate::world::RS;
use bluejay_core::definition::{prelude::*, HasDirectives, InterfaceImplementation, SchemaDefinition, TypeDefinitionReference, UnionMemberType};
use bluejay_core::{Argument, AsIter, Directive, Value, ValueReference};
use std::cell::Cell;
use std::collections::BTreeSet;

pub const GROUPS: usize = 6;

#[derive(Debug, Clone, Default)]
pub struct Tenant {
    pub groups: BTreeSet<i32>,
    pub hide_impls: BTreeSet<String>,
    pub hide_members: BTreeSet<String>,
    pub hide_dirs: BTreeSet<String>,
    pub no_defaults: bool,
    pub no_dir_args: bool,
    pub strict_scalars: bool,
    /// the query root, if the tenant may not even see that: then there is no view at all
    pub hide_root: Option<String>,
}

impl Tenant {
    fn sees(&self, dirs: &Dirs) -> bool {
        dirs.iter().filter(|d| d.name == "g").all(|d| match d.args.iter().find(|a| a.0 == "n") {
            Some((_, Val::Int(n))) => self.shows(*n),
            _ => true,
        })
    }
    fn shows(&self, n: i32) -> bool {
        if n > 0 {
            self.groups.contains(&n)
        } else {
            !self.groups.contains(&-n)
        }
    }
}

pub fn gen_tenant(t: &mut Tape, s: &Schema) -> Tenant {
    let mut x = Tenant::default();
    for g in 1..=GROUPS as i32 {
        if t.chance(2, 3) {
            x.groups.insert(g);
        }
    }
    for d in &s.types {
        if d.is_interface() && t.chance(1, 8) {
            x.hide_impls.insert(d.name.clone());
        }
        if d.is_object() && t.chance(1, 8) {
            x.hide_members.insert(d.name.clone());
        }
    }
    for d in &s.directives {
        if t.chance(1, 6) {
            x.hide_dirs.insert(d.name.clone());
        }
    }
    if t.chance(1, 8) {
        x.hide_dirs.insert("deprecated".into());
    }
    x.no_defaults = t.chance(1, 6);
    x.no_dir_args = t.chance(1, 6);
    x.strict_scalars = t.chance(1, 4);
    if t.chance(1, 24) {
        x.hide_root = Some(s.query.clone());
    }
    x
}

/// Put feature groups on elements and add alternative versions of fields.
pub fn decorate(t: &mut Tape, s: &mut Schema, versions: bool) {
    let locs = ["SCALAR", "OBJECT", "FIELD_DEFINITION", "ARGUMENT_DEFINITION", "INTERFACE", "UNION", "ENUM", "ENUM_VALUE", "INPUT_OBJECT", "INPUT_FIELD_DEFINITION"];
    let n = InVal { name: "n".into(), desc: None, ty: Ty::Named("Int".into(), true), default: None, dirs: vec![] };
    s.directives.push(DirDef { name: "g".into(), desc: None, args: vec![n], repeatable: true, locs: locs.iter().map(|x| x.to_string()).collect() });
    fn mark(t: &mut Tape, d: &mut Dirs, num: usize) {
        if t.chance(num, 12) {
            let g = t.range(1, GROUPS) as i32;
            let n = if t.chance(1, 4) { -g } else { g };
            d.push(gdir(n));
        }
    }
    let rate = t.range(1, 3);
    let q = s.query.clone();
    for td in &mut s.types {
        if td.name != q {
            mark(t, &mut td.dirs, rate);
        }
        match &mut td.kind {
            Kind::Enum(v) => {
                for v in v.iter_mut().skip(1) {
                    mark(t, &mut v.dirs, rate + 1);
                }
            }
            Kind::Input(f) => {
                for f in f.iter_mut().skip(1) {
                    mark(t, &mut f.dirs, rate);
                }
            }
            Kind::Interface(_, f) | Kind::Object(_, f) => {
                for (i, f) in f.iter_mut().enumerate() {
                    if i > 0 || td.name != q {
                        mark(t, &mut f.dirs, rate);
                    }
                    for a in &mut f.args {
                        mark(t, &mut a.dirs, rate);
                    }
                }
            }
            _ => {}
        }
    }
    if versions {
        // a second version of a field: shown instead of the first by a feature group, or when the
        // type of the first is hidden
        let outs: Vec<String> = s.types.iter().filter(|x| !x.is_input()).map(|x| x.name.clone()).chain(["Int".into(), "String".into()]).collect();
        let hosts: Vec<usize> = (0..s.types.len()).filter(|i| !s.types[*i].fields().is_empty()).collect();
        for _ in 0..t.pick(4) {
            let k = *t.choose(&hosts);
            let base = t.choose(&outs).clone();
            let Some(fs) = s.types[k].fields_mut() else { continue };
            let i = t.pick(fs.len());
            let name = fs[i].name.clone();
            if fs.iter().filter(|f| f.name == name).count() > 1 {
                continue;
            }
            let g = t.range(1, GROUPS) as i32;
            if t.chance(2, 3) {
                fs[i].dirs.push(gdir(g));
            }
            let dirs = if t.chance(2, 3) { vec![gdir(-g)] } else { vec![] };
            let f = FieldDef { name, desc: None, args: vec![], ty: crate::gen::wrap_ty(t, &base, false), dirs };
            let at = t.pick(fs.len() + 1);
            fs.insert(at, f);
        }
    }
}
fn gdir(n: i32) -> Dir {
    Dir { name: "g".into(), args: vec![("n".into(), Val::Int(n))] }
}

/// Everything `t` may see of `s`.
pub fn project(s: &Schema, t: &Tenant) -> Schema {
    let hidden: BTreeSet<&str> = s.types.iter().filter(|x| !t.sees(&x.dirs)).map(|x| x.name.as_str()).collect();
    let vis = |ty: &Ty| !hidden.contains(ty.base());
    let dirs = |d: &Dirs| -> Dirs {
        d.iter()
            .filter(|d| !t.hide_dirs.contains(&d.name))
            .map(|d| if t.no_dir_args { Dir { name: d.name.clone(), args: vec![] } } else { d.clone() })
            .collect()
    };
    let inv = |v: &[InVal]| -> Vec<InVal> {
        v.iter()
            .filter(|v| t.sees(&v.dirs) && vis(&v.ty))
            .map(|v| InVal { dirs: dirs(&v.dirs), default: if t.no_defaults { None } else { v.default.clone() }, ..v.clone() })
            .collect()
    };
    let fields = |v: &[FieldDef]| -> Vec<FieldDef> {
        v.iter().filter(|v| t.sees(&v.dirs) && vis(&v.ty)).map(|v| FieldDef { args: inv(&v.args), dirs: dirs(&v.dirs), ..v.clone() }).collect()
    };
    let impls = |v: &[String]| -> Vec<String> { v.iter().filter(|v| !t.hide_impls.contains(*v) && !hidden.contains(v.as_str())).cloned().collect() };
    let mut p = s.clone();
    p.dirs = dirs(&s.dirs);
    for r in [&mut p.mutation, &mut p.subscription] {
        if r.as_deref().is_some_and(|r| hidden.contains(r)) {
            *r = None;
        }
    }
    p.types = s
        .types
        .iter()
        .filter(|x| !hidden.contains(x.name.as_str()))
        .map(|x| TypeDef {
            name: x.name.clone(),
            desc: x.desc.clone(),
            dirs: dirs(&x.dirs),
            kind: match &x.kind {
                Kind::Scalar => Kind::Scalar,
                Kind::Enum(v) => Kind::Enum(v.iter().filter(|v| t.sees(&v.dirs)).map(|v| EnumVal { dirs: dirs(&v.dirs), ..v.clone() }).collect()),
                Kind::Input(f) => Kind::Input(inv(f)),
                Kind::Interface(i, f) => Kind::Interface(impls(i), fields(f)),
                Kind::Object(i, f) => Kind::Object(impls(i), fields(f)),
                Kind::Union(m) => Kind::Union(m.iter().filter(|m| !t.hide_members.contains(*m) && !hidden.contains(m.as_str())).cloned().collect()),
            },
        })
        .collect();
    p.directives = s.directives.iter().filter(|d| !t.hide_dirs.contains(&d.name)).map(|d| DirDef { args: inv(&d.args), ..d.clone() }).collect();
    p
}

const EXEC: [&str; 8] = ["QUERY", "MUTATION", "SUBSCRIPTION", "FIELD", "FRAGMENT_DEFINITION", "FRAGMENT_SPREAD", "INLINE_FRAGMENT", "VARIABLE_DEFINITION"];

/// The part of a projected schema that introspection lists: what the roots and the directives
/// usable by clients lead to. Types and directives sorted by name.
pub fn reachable(p: &Schema) -> Schema {
    let mut types: BTreeSet<String> = BTreeSet::new();
    let mut ds: BTreeSet<String> = BTreeSet::new();
    let mut todo: Vec<(bool, String)> = vec![];
    todo.extend([Some(&p.query), p.mutation.as_ref(), p.subscription.as_ref()].into_iter().flatten().map(|n| (true, n.clone())));
    todo.extend(p.directives.iter().filter(|d| d.locs.iter().any(|l| EXEC.contains(&l.as_str()))).map(|d| (false, d.name.clone())));
    fn dirs(d: &Dirs, todo: &mut Vec<(bool, String)>) {
        todo.extend(d.iter().map(|d| (false, d.name.clone())))
    }
    fn inv(v: &[InVal], todo: &mut Vec<(bool, String)>) {
        for v in v {
            dirs(&v.dirs, todo);
            todo.push((true, v.ty.base().to_string()));
        }
    }
    while let Some((is_type, n)) = todo.pop() {
        if !is_type {
            if ds.insert(n.clone()) {
                if let Some(d) = p.dir(&n) {
                    inv(&d.args, &mut todo);
                }
            }
            continue;
        }
        if !types.insert(n.clone()) {
            continue;
        }
        let Some(td) = p.ty(&n) else { continue };
        dirs(&td.dirs, &mut todo);
        match &td.kind {
            Kind::Scalar => {}
            Kind::Enum(v) => v.iter().for_each(|v| dirs(&v.dirs, &mut todo)),
            Kind::Input(f) => inv(f, &mut todo),
            Kind::Union(m) => todo.extend(m.iter().map(|m| (true, m.clone()))),
            Kind::Interface(i, f) | Kind::Object(i, f) => {
                todo.extend(i.iter().map(|m| (true, m.clone())));
                for f in f {
                    dirs(&f.dirs, &mut todo);
                    inv(&f.args, &mut todo);
                    todo.push((true, f.ty.base().to_string()));
                }
                if td.is_interface() {
                    todo.extend(p.possible(&n).into_iter().map(|m| (true, m)));
                }
            }
        }
    }
    let mut r = p.clone();
    r.types.retain(|t| types.contains(&t.name));
    r.types.sort_by(|a, b| a.name.cmp(&b.name));
    r.directives.retain(|t| ds.contains(&t.name));
    r.directives.sort_by(|a, b| a.name.cmp(&b.name));
    r.explicit = false;
    r
}

pub fn ambiguous(p: &Schema) -> bool {
    p.types.iter().any(|t| t.fields().iter().enumerate().any(|(i, f)| t.fields()[..i].iter().any(|g| g.name == f.name)))
}

/// May documents be generated for this projection?
pub fn usable(p: &Schema) -> bool {
    p.types.iter().all(|t| match &t.kind {
        Kind::Enum(v) => !v.is_empty(),
        Kind::Input(f) => !f.is_empty() || !t.one_of(),
        _ => true,
    }) && p.subscription.as_ref().map_or(true, |r| p.ty(r).is_some_and(|t| !t.fields().is_empty()))
        && !p.directives.iter().any(|d| d.args.iter().any(|a| a.ty.required() && a.default.is_none() && p.is_input_ty(a.ty.base()) && p.ty(a.ty.base()).is_some_and(|t| t.is_input() && t.in_fields().is_empty())))
}

// ------------------------------------------------------------------ the warden

pub struct SimWarden<'a> {
    pub tenant: std::rc::Rc<Tenant>,
    /// questions asked so far
    pub calls: Cell<u64>,
    /// fail when this question is asked
    pub panic_at: Cell<Option<u64>>,
    _p: std::marker::PhantomData<RS<'a>>,
}

impl<'a> SimWarden<'a> {
    pub fn new(tenant: std::rc::Rc<Tenant>) -> Self {
        SimWarden { tenant, calls: Cell::new(0), panic_at: Cell::new(None), _p: Default::default() }
    }
    fn ask(&self) {
        let n = self.calls.get();
        self.calls.set(n + 1);
        if self.panic_at.get() == Some(n) {
            self.panic_at.set(None);
            std::panic::panic_any(Injected("warden"));
        }
    }
    fn sees<D: HasDirectives>(&self, d: &D) -> bool {
        self.ask();
        d.directives().map_or(true, |ds| {
            ds.iter().filter(|d| d.name() == "g").all(|d| match d.arguments().and_then(|a| a.iter().find(|a| a.name() == "n")).map(|a| a.value().as_ref()) {
                Some(ValueReference::Integer(n)) => self.tenant.shows(n),
                _ => true,
            })
        })
    }
}

type Sd<'a> = RS<'a>;
macro_rules! by_dirs {
    ($($f:ident $t:ident),*) => { $(fn $f(&self, x: &<Sd<'a> as SchemaDefinition>::$t) -> bool { self.sees(x) })* };
}

impl<'a> bluejay_visibility::Warden for SimWarden<'a> {
    type SchemaDefinition = Sd<'a>;
    type TypeDefinitionsForName<'b> = std::option::IntoIter<TypeDefinitionReference<'b, <Sd<'a> as SchemaDefinition>::TypeDefinition>> where Self: 'b;

    by_dirs!(
        is_field_definition_visible FieldDefinition,
        is_input_value_definition_visible InputValueDefinition,
        is_enum_value_definition_visible EnumValueDefinition,
        is_custom_scalar_type_definition_visible CustomScalarTypeDefinition,
        is_enum_type_definition_visible EnumTypeDefinition,
        is_input_object_type_definition_visible InputObjectTypeDefinition,
        is_interface_type_definition_visible InterfaceTypeDefinition,
        is_union_type_definition_visible UnionTypeDefinition
    );
    fn is_object_type_definition_visible(&self, x: &<Sd<'a> as SchemaDefinition>::ObjectTypeDefinition) -> bool {
        self.sees(x) && self.tenant.hide_root.as_deref() != Some(x.name())
    }
    fn is_union_member_type_visible(&self, x: &<Sd<'a> as SchemaDefinition>::UnionMemberType) -> bool {
        self.ask();
        !self.tenant.hide_members.contains(UnionMemberType::name(x))
    }
    fn is_interface_implementation_visible(&self, x: &<Sd<'a> as SchemaDefinition>::InterfaceImplementation) -> bool {
        self.ask();
        !self.tenant.hide_impls.contains(InterfaceImplementation::name(x))
    }
    fn is_directive_definition_visible(&self, x: &<Sd<'a> as SchemaDefinition>::DirectiveDefinition) -> bool {
        self.ask();
        !self.tenant.hide_dirs.contains(x.name())
    }
    fn input_value_definition_default_value<'b>(&self, x: &bluejay_visibility::InputValueDefinition<'b, Sd<'a>, Self>) -> Option<&'b <<Sd<'a> as SchemaDefinition>::InputValueDefinition as bluejay_core::definition::InputValueDefinition>::Value> {
        self.ask();
        if self.tenant.no_defaults {
            None
        } else {
            x.inner().default_value()
        }
    }
    fn directive_arguments<'b>(&self, x: &bluejay_visibility::Directive<'b, Sd<'a>, Self>) -> Option<&'b <<Sd<'a> as SchemaDefinition>::Directive as Directive<true>>::Arguments> {
        self.ask();
        if self.tenant.no_dir_args {
            None
        } else {
            x.inner().arguments()
        }
    }
    fn custom_scalar_definition_coerce_input<const CONST: bool>(&self, x: &<Sd<'a> as SchemaDefinition>::CustomScalarTypeDefinition, value: &impl Value<CONST>) -> Result<(), std::borrow::Cow<'static, str>> {
        self.ask();
        if self.tenant.strict_scalars && matches!(value.as_ref(), ValueReference::Boolean(_)) {
            Err("no booleans".into())
        } else {
            x.coerce_input(value)
        }
    }
    fn type_definitions_for_name<'b>(&self, s: &'b Sd<'a>, n: &str) -> Self::TypeDefinitionsForName<'b> {
        self.ask();
        s.get_type_definition(n).into_iter()
    }
}
