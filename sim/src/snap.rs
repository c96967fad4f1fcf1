//! Snapshots of real bluejay objects into the harness's own model, through the public core traits.
use crate::model::*;
use bluejay_core::definition::{self as d, prelude::*, DirectiveDefinition, FieldDefinition, FieldsDefinition, InputType, InputValueDefinition, OutputType, SchemaDefinition, TypeDefinition, TypeDefinitionReference as T};
use bluejay_core::executable::{self as x, *};
use bluejay_core::{Argument, AsIter, Directive, ObjectValue, OperationType, Value, ValueReference, Variable};

pub fn value<const C: bool, V: Value<C>>(v: &V) -> Val {
    match v.as_ref() {
        ValueReference::Variable(n) => Val::Var(n.name().to_string()),
        ValueReference::Integer(i) => Val::Int(i),
        ValueReference::Float(f) => Val::Float(f),
        ValueReference::String(s) => Val::Str(s.to_string()),
        ValueReference::Boolean(b) => Val::Bool(b),
        ValueReference::Null => Val::Null,
        ValueReference::Enum(e) => Val::Enum(e.to_string()),
        ValueReference::List(l) => Val::List(l.iter().map(value).collect()),
        ValueReference::Object(o) => Val::Obj(o.iter().map(|(k, v)| (k.as_ref().to_string(), value(v))).collect()),
    }
}

pub fn args<const C: bool, A: bluejay_core::Arguments<C>>(a: Option<&A>) -> Vec<(String, Val)> {
    a.map(|a| a.iter().map(|x| (x.name().to_string(), value(x.value()))).collect()).unwrap_or_default()
}

pub fn dirs<const C: bool, D: bluejay_core::Directives<C>>(ds: Option<&D>) -> Dirs {
    ds.map(|ds| ds.iter().map(|x| Dir { name: x.name().to_string(), args: args(x.arguments()) }).collect()).unwrap_or_default()
}

fn out_ty<O: OutputType>(t: &O) -> Ty {
    match t.as_shallow_ref() {
        d::ShallowOutputTypeReference::Base(n, r) => Ty::Named(n.to_string(), r),
        d::ShallowOutputTypeReference::List(i, r) => Ty::List(Box::new(out_ty(i)), r),
    }
}
pub fn in_ty<O: InputType>(t: &O) -> Ty {
    match t.as_shallow_ref() {
        d::ShallowInputTypeReference::Base(n, r) => Ty::Named(n.to_string(), r),
        d::ShallowInputTypeReference::List(i, r) => Ty::List(Box::new(in_ty(i)), r),
    }
}
fn st(s: Option<&str>) -> Option<String> {
    s.map(|x| x.to_string())
}

pub fn in_val<I: InputValueDefinition>(i: &I) -> InVal {
    InVal { name: i.name().to_string(), desc: st(i.description()), ty: in_ty(i.r#type()), default: i.default_value().map(value), dirs: dirs(i.directives()) }
}
pub fn field<F: FieldDefinition>(f: &F) -> FieldDef {
    FieldDef {
        name: f.name().to_string(),
        desc: st(f.description()),
        args: f.arguments_definition().map(|a| a.iter().map(in_val).collect()).unwrap_or_default(),
        ty: out_ty(f.r#type()),
        dirs: dirs(f.directives()),
    }
}
fn fields<F: FieldsDefinition>(f: &F, builtin: bool) -> Vec<FieldDef> {
    f.iter().filter(|f| builtin || !f.is_builtin()).map(field).collect()
}

pub fn enum_val<V: d::EnumValueDefinition>(v: &V) -> EnumVal {
    EnumVal { name: v.name().to_string(), desc: st(v.description()), dirs: dirs(v.directives()) }
}

/// `builtin`: include builtin fields (`__typename`, `__schema`, `__type`)
pub fn type_def<D: TypeDefinition>(t: T<'_, D>, builtin: bool) -> Option<TypeDef> {
    let kind = match t {
        T::BuiltinScalar(_) => return None,
        T::CustomScalar(_) => Kind::Scalar,
        T::Object(o) => Kind::Object(
            o.interface_implementations().map(|i| i.iter().map(|x| x.name().to_string()).collect()).unwrap_or_default(),
            fields(o.fields_definition(), builtin),
        ),
        T::Interface(o) => Kind::Interface(
            o.interface_implementations().map(|i| i.iter().map(|x| x.name().to_string()).collect()).unwrap_or_default(),
            fields(o.fields_definition(), builtin),
        ),
        T::InputObject(o) => Kind::Input(o.input_field_definitions().iter().map(in_val).collect()),
        T::Enum(e) => Kind::Enum(
            e.enum_value_definitions().iter().map(enum_val).collect(),
        ),
        T::Union(u) => Kind::Union(u.union_member_types().iter().map(|m| m.name().to_string()).collect()),
    };
    Some(TypeDef { name: t.name().to_string(), desc: st(t.description()), dirs: dirs(t.directives()), kind })
}

pub fn dir_def<D: DirectiveDefinition>(dd: &D) -> DirDef {
    DirDef {
        name: dd.name().to_string(),
        desc: st(dd.description()),
        args: dd.arguments_definition().map(|a| a.iter().map(in_val).collect()).unwrap_or_default(),
        repeatable: dd.is_repeatable(),
        locs: dd.locations().iter().map(|l| l.to_string()).collect(),
    }
}

/// user-defined part of a schema, in the order the object enumerates it
pub fn schema<S: SchemaDefinition>(s: &S) -> Schema {
    Schema {
        desc: st(s.description()),
        dirs: dirs(s.directives()),
        explicit: false,
        query: s.query().name().to_string(),
        mutation: s.mutation().map(|m| m.name().to_string()),
        subscription: s.subscription().map(|m| m.name().to_string()),
        types: s.type_definitions().filter(|t| !t.is_builtin()).filter_map(|t| type_def(t, false)).collect(),
        directives: s.directive_definitions().filter(|x| !x.is_builtin()).map(dir_def).collect(),
    }
}

pub fn implementors<S: SchemaDefinition>(s: &S, iface: &str) -> Vec<String> {
    match s.get_type_definition(iface) {
        Some(T::Interface(i)) => s.get_interface_implementors(i).map(|o| o.name().to_string()).collect(),
        _ => vec![],
    }
}

pub fn var_ty<V: VariableType>(t: &V) -> Ty {
    match t.as_ref() {
        x::VariableTypeReference::Named(n, r) => Ty::Named(n.to_string(), r),
        x::VariableTypeReference::List(i, r) => Ty::List(Box::new(var_ty(i)), r),
    }
}

pub fn field_sel<F: x::Field>(f: &F) -> Sel
where
    F::SelectionSet: SelectionSet,
    <<F::SelectionSet as SelectionSet>::Selection as Selection>::Field: x::Field<SelectionSet = F::SelectionSet>,
    <<F::SelectionSet as SelectionSet>::Selection as Selection>::InlineFragment: x::InlineFragment<SelectionSet = F::SelectionSet>,
{
    Sel::Field(FieldSel { alias: st(f.alias()), name: f.name().to_string(), args: args(f.arguments()), dirs: dirs(f.directives()), sels: f.selection_set().map(sels).unwrap_or_default() })
}

pub fn sels<S: SelectionSet>(s: &S) -> Vec<Sel>
where
    <S::Selection as Selection>::Field: x::Field<SelectionSet = S>,
    <S::Selection as Selection>::InlineFragment: x::InlineFragment<SelectionSet = S>,
{
    s.iter()
        .map(|sel| match sel.as_ref() {
            SelectionReference::Field(f) => field_sel(f),
            SelectionReference::FragmentSpread(f) => Sel::Spread(f.name().to_string(), dirs(f.directives())),
            SelectionReference::InlineFragment(f) => Sel::Inline(st(f.type_condition()), dirs(f.directives()), sels(f.selection_set())),
        })
        .collect()
}

pub fn op_kind(o: OperationType) -> OpKind {
    match o {
        OperationType::Query => OpKind::Query,
        OperationType::Mutation => OpKind::Mutation,
        OperationType::Subscription => OpKind::Subscription,
    }
}

pub fn op<E: ExecutableDocument>(o: &E::OperationDefinition) -> Op {
    let r = OperationDefinition::as_ref(o);
    Op {
        kind: op_kind(r.operation_type()),
        shorthand: matches!(r, OperationDefinitionReference::Implicit(_)),
        name: st(r.name()),
        vars: r
            .variable_definitions()
            .map(|v| {
                v.iter()
                    .map(|v| VarDef { name: v.variable().to_string(), ty: var_ty(v.r#type()), default: v.default_value().map(value), dirs: dirs(v.directives()) })
                    .collect()
            })
            .unwrap_or_default(),
        dirs: dirs(r.directives()),
        sels: sels(r.selection_set()),
    }
}

pub fn frag<E: ExecutableDocument>(f: &E::FragmentDefinition) -> Def {
    Def::Frag(Frag { name: f.name().to_string(), on: f.type_condition().to_string(), dirs: dirs(f.directives()), sels: sels(f.selection_set()) })
}

/// operations first, then fragments, each in document order
pub fn doc<E: ExecutableDocument>(e: &E) -> Doc {
    let mut defs: Vec<Def> = e.operation_definitions().map(|o| Def::Op(op::<E>(o))).collect();
    defs.extend(e.fragment_definitions().map(|f| {
        Def::Frag(Frag { name: f.name().to_string(), on: f.type_condition().to_string(), dirs: dirs(f.directives()), sels: sels(f.selection_set()) })
    }));
    Doc { defs }
}

/// the model document in the order `doc` produces
pub fn normal_doc(d: &Doc) -> Doc {
    let mut defs: Vec<Def> = d.defs.iter().filter(|x| matches!(x, Def::Op(_))).cloned().collect();
    defs.extend(d.defs.iter().filter(|x| matches!(x, Def::Frag(_))).cloned());
    Doc { defs }
}
/// the model schema as `schema` should show it
pub fn normal_schema(s: &Schema) -> Schema {
    let mut s = s.clone();
    s.explicit = false;
    s
}
