//! S13: the comparator reports the edits between any two versions of a schema, each exactly once.
use super::Prop;
use crate::ctx::{viol, Ctx, R};
use crate::ensure;
use crate::evolve::edit;
use crate::gen::*;
use crate::model::*;
use crate::refdiff::{arrow, Diff, Rec};
use crate::refparse;
use crate::snap;
use crate::world::*;
use bluejay_core::definition::{prelude::*, DirectiveDefinition, EnumTypeDefinition, EnumValueDefinition, FieldDefinition, InputObjectTypeDefinition, InputValueDefinition, InterfaceImplementation, ObjectTypeDefinition, UnionMemberType, UnionTypeDefinition};
use bluejay_core::{Argument, Directive};
use bluejay_schema_comparator::{compare, Change, Criticality};

pub const PROP: Prop = Prop {
    id: "S13",
    run,
    known: &[("root-operation-types", known_roots), ("repeatable", known_repeatable), ("interface-implements", known_interfaces), ("schema-description", known_description), ("directive-argument-directives", known_arg_dirs)],
    quick_secs: 40,
    thorough_secs: 600,
    min_secs: 40,
    rule: "2-3 teams evolve a schema: each publishes a next version (1-6 edits of 40 kinds, or a revert to an earlier one, or only a reordering) to a registry whose log delivers versions late, twice or out of order, and which crashes and restarts from its log. The registry compares every version it gets with one it knows, in both directions. Non-trivial: two versions were compared that differ.",
    real: "bluejay-schema-comparator, bluejay-printer (values in messages), bluejay-parser (registry), bluejay-core",
    stub: "teams, registry log, delivery",
    assumptions: "oracle: independent diff of the independently parsed texts. Messages must name what changed, their wording is free; the order of changes is free. The k-th application of a repeatable directive is compared with the k-th. Differences the comparator has no change for are known findings.",
};

type Ch<'a> = Change<'a, RS<'a>>;

fn ty_of(t: bluejay_core::definition::TypeDefinitionReference<'_, <RS<'_> as bluejay_core::definition::SchemaDefinition>::TypeDefinition>) -> TypeDef {
    snap::type_def(t, false).unwrap_or(TypeDef { name: t.name().to_string(), desc: None, dirs: vec![], kind: Kind::Scalar })
}
fn st(s: Option<&str>) -> Option<String> {
    s.map(|x| x.to_string())
}

/// One reported change, as the reference records it.
fn rec(ch: &Ch<'_>) -> (Rec, String) {
    let mut names: Vec<String> = vec![];
    let mut n = |s: &str| names.push(s.to_string());
    let iv = |d: &_| snap::in_val(d);
    use Change::*;
    let (kind, what): (&'static str, String) = match ch {
        TypeRemoved { removed_type_definition: t } => {
            n(t.name());
            ("TypeRemoved", String::new())
        }
        TypeAdded { added_type_definition: t } => {
            n(t.name());
            ("TypeAdded", format!("{:?}", ty_of(*t)))
        }
        TypeKindChanged { old_type_definition: a, new_type_definition: b } => {
            n(a.name());
            n(&a.kind().to_string());
            n(&b.kind().to_string());
            ("TypeKindChanged", arrow(ty_of(*a).kind_name(), ty_of(*b).kind_name()))
        }
        TypeDescriptionChanged { old_type_definition: a, new_type_definition: b } => {
            n(a.name());
            ("TypeDescriptionChanged", arrow(a.description(), b.description()))
        }
        FieldAdded { added_field_definition: f, type_name } => {
            n(type_name);
            n(f.name());
            ("FieldAdded", format!("{:?}", snap::field(*f)))
        }
        FieldRemoved { removed_field_definition: f, type_name } => {
            n(type_name);
            n(f.name());
            ("FieldRemoved", String::new())
        }
        FieldDescriptionChanged { type_name, old_field_definition: a, new_field_definition: b } => {
            n(type_name);
            n(a.name());
            ("FieldDescriptionChanged", arrow(a.description(), b.description()))
        }
        FieldTypeChanged { type_name, old_field_definition: a, new_field_definition: b } => {
            let (x, y) = (snap::field(*a).ty, snap::field(*b).ty);
            n(type_name);
            n(a.name());
            n(&x.show());
            n(&y.show());
            ("FieldTypeChanged", arrow(x, y))
        }
        FieldArgumentAdded { type_name, field_definition: f, argument_definition: a } => {
            n(type_name);
            n(f.name());
            n(a.name());
            ("FieldArgumentAdded", format!("{:?}", iv(*a)))
        }
        FieldArgumentRemoved { type_name, field_definition: f, argument_definition: a } => {
            n(type_name);
            n(f.name());
            n(a.name());
            ("FieldArgumentRemoved", String::new())
        }
        FieldArgumentDescriptionChanged { type_name, field_definition: f, old_argument_definition: a, new_argument_definition: b } => {
            n(type_name);
            n(f.name());
            n(a.name());
            ("FieldArgumentDescriptionChanged", arrow(a.description(), b.description()))
        }
        FieldArgumentDefaultValueChanged { type_name, field_definition: f, old_argument_definition: a, new_argument_definition: b } => {
            n(type_name);
            n(f.name());
            n(a.name());
            ("FieldArgumentDefaultValueChanged", arrow(iv(*a).default, iv(*b).default))
        }
        FieldArgumentTypeChanged { type_name, field_definition: f, old_argument_definition: a, new_argument_definition: b } => {
            let (x, y) = (iv(*a).ty, iv(*b).ty);
            n(type_name);
            n(f.name());
            n(a.name());
            n(&x.show());
            n(&y.show());
            ("FieldArgumentTypeChanged", arrow(x, y))
        }
        ObjectInterfaceAddition { object_type_definition: o, interface_implementation: i } => {
            n(o.name());
            n(i.name());
            ("ObjectInterfaceAddition", i.name().to_string())
        }
        ObjectInterfaceRemoval { object_type_definition: o, interface_implementation: i } => {
            n(o.name());
            n(i.name());
            ("ObjectInterfaceRemoval", i.name().to_string())
        }
        EnumValueAdded { enum_type_definition: e, enum_value_definition: v } => {
            n(e.name());
            n(v.name());
            ("EnumValueAdded", format!("{:?}", EnumVal { name: v.name().to_string(), desc: st(v.description()), dirs: snap::dirs(v.directives()) }))
        }
        EnumValueRemoved { enum_type_definition: e, enum_value_definition: v } => {
            n(e.name());
            n(v.name());
            ("EnumValueRemoved", String::new())
        }
        EnumValueDescriptionChanged { enum_type_definition: e, old_enum_value_definition: a, new_enum_value_definition: b } => {
            n(e.name());
            n(a.name());
            ("EnumValueDescriptionChanged", arrow(a.description(), b.description()))
        }
        UnionMemberAdded { union_type_definition: u, union_member_type: m } => {
            n(u.name());
            n(m.name());
            ("UnionMemberAdded", m.name().to_string())
        }
        UnionMemberRemoved { union_type_definition: u, union_member_type: m } => {
            n(u.name());
            n(m.name());
            ("UnionMemberRemoved", m.name().to_string())
        }
        InputFieldAdded { input_object_type_definition: i, added_field_definition: f } => {
            n(i.name());
            n(f.name());
            ("InputFieldAdded", format!("{:?}", iv(*f)))
        }
        InputFieldRemoved { input_object_type_definition: i, removed_field_definition: f } => {
            n(i.name());
            n(f.name());
            ("InputFieldRemoved", String::new())
        }
        InputFieldDescriptionChanged { input_object_type_definition: i, old_field_definition: a, new_field_definition: b } => {
            n(i.name());
            n(a.name());
            ("InputFieldDescriptionChanged", arrow(a.description(), b.description()))
        }
        InputFieldTypeChanged { input_object_type_definition: i, old_field_definition: a, new_field_definition: b } => {
            let (x, y) = (iv(*a).ty, iv(*b).ty);
            n(i.name());
            n(a.name());
            n(&x.show());
            n(&y.show());
            ("InputFieldTypeChanged", arrow(x, y))
        }
        InputFieldDefaultValueChanged { input_object_type_definition: i, old_field_definition: a, new_field_definition: b } => {
            n(i.name());
            n(a.name());
            ("InputFieldDefaultValueChanged", arrow(iv(*a).default, iv(*b).default))
        }
        DirectiveDefinitionAdded { directive_definition: d } => {
            n(d.name());
            ("DirectiveDefinitionAdded", format!("{:?}", snap::dir_def(*d)))
        }
        DirectiveDefinitionRemoved { directive_definition: d } => {
            n(d.name());
            ("DirectiveDefinitionRemoved", String::new())
        }
        DirectiveDefinitionLocationAdded { directive_definition: d, location } => {
            n(d.name());
            n(&location.to_string());
            ("DirectiveDefinitionLocationAdded", location.to_string())
        }
        DirectiveDefinitionLocationRemoved { directive_definition: d, location } => {
            n(d.name());
            n(&location.to_string());
            ("DirectiveDefinitionLocationRemoved", location.to_string())
        }
        DirectiveDefinitionDescriptionChanged { old_directive_definition: a, new_directive_definition: b } => {
            n(a.name());
            ("DirectiveDefinitionDescriptionChanged", arrow(a.description(), b.description()))
        }
        DirectiveDefinitionArgumentAdded { directive_definition: d, argument_definition: a } => {
            n(d.name());
            n(a.name());
            ("DirectiveDefinitionArgumentAdded", format!("{:?}", iv(*a)))
        }
        DirectiveDefinitionArgumentRemoved { directive_definition: d, argument_definition: a } => {
            n(d.name());
            n(a.name());
            ("DirectiveDefinitionArgumentRemoved", String::new())
        }
        DirectiveDefinitionArgumentDescriptionChanged { directive_definition: d, old_argument_definition: a, new_argument_definition: b } => {
            n(d.name());
            n(a.name());
            ("DirectiveDefinitionArgumentDescriptionChanged", arrow(a.description(), b.description()))
        }
        DirectiveDefinitionArgumentDefaultValueChanged { directive_definition: d, old_argument_definition: a, new_argument_definition: b } => {
            n(d.name());
            n(a.name());
            ("DirectiveDefinitionArgumentDefaultValueChanged", arrow(iv(*a).default, iv(*b).default))
        }
        DirectiveDefinitionArgumentTypeChanged { directive_definition: d, old_argument_definition: a, new_argument_definition: b } => {
            let (x, y) = (iv(*a).ty, iv(*b).ty);
            n(d.name());
            n(a.name());
            n(&x.show());
            n(&y.show());
            ("DirectiveDefinitionArgumentTypeChanged", arrow(x, y))
        }
        DirectiveAdded { location, member_name, directive: d } => {
            n(d.name());
            n(member_name);
            ("DirectiveAdded", format!("{location} {member_name} {:?}", snap::args(d.arguments())))
        }
        DirectiveRemoved { location, member_name, directive: d } => {
            n(d.name());
            n(member_name);
            ("DirectiveRemoved", format!("{location} {member_name} {:?}", snap::args(d.arguments())))
        }
        DirectiveArgumentAdded { directive: d, argument: a } => {
            n(d.name());
            n(a.name().as_ref());
            ("DirectiveArgumentAdded", format!("{:?}", snap::value(a.value())))
        }
        DirectiveArgumentRemoved { directive: d, argument: a } => {
            n(d.name());
            n(a.name().as_ref());
            ("DirectiveArgumentRemoved", format!("{:?}", snap::value(a.value())))
        }
        DirectiveArgumentValueChanged { directive: d, old_argument: a, new_argument: b } => {
            n(d.name());
            n(a.name().as_ref());
            ("DirectiveArgumentValueChanged", arrow(snap::value(a.value()), snap::value(b.value())))
        }
        #[allow(unreachable_patterns)]
        _ => ("other", String::new()),
    };
    let level = match ch.criticality() {
        Criticality::Breaking { .. } => 'B',
        Criticality::Dangerous { .. } => 'D',
        Criticality::Safe { .. } => 'S',
    };
    (Rec { kind, path: ch.path(), what, level, names }, ch.message())
}

pub fn model(src: &str) -> R<Schema> {
    match refparse::parse_sdl(src).ok().and_then(|d| d.model()) {
        Some(m) => Ok(m),
        None => viol("harness: own schema does not parse", src),
    }
}

fn judge(c: &mut Ctx, a: &str, b: &str) -> R<usize> {
    let (old, new) = (model(a)?, model(b)?);
    let want = Diff::of(&old, &new);
    c.eval();
    for s in &want.silent {
        c.probe(if s.starts_with("root") { "silent_root_operation_type" } else { "silent_other" });
    }
    with_schema(a, |x| {
        with_schema(b, |y| {
            let r = compare(x, y);
            let mut got: Vec<Rec> = vec![];
            for ch in &r.changes {
                let (g, m) = rec(ch);
                ensure!(AsRef::<str>::as_ref(ch) == g.kind, "name of a change", "{} for {}", AsRef::<str>::as_ref(ch), g.kind);
                for n in &g.names {
                    ensure!(m.contains(n.as_str()), format!("message of {}", g.kind), "does not name {n:?}: {m}");
                }
                let l = (ch.breaking(), ch.dangerous(), ch.non_breaking());
                ensure!(l == (g.level == 'B', g.level == 'D', g.level == 'S'), "criticality", "{l:?} {}", g.level);
                let k = ch.criticality();
                ensure!((k.is_breaking(), k.is_dangerous(), k.is_safe()) == l && !k.reason().is_empty(), "criticality", "{l:?} {}", k.reason());
                // another query root gets the introspection fields of the former one
                if old.query != new.query && matches!(g.kind, "FieldAdded" | "FieldRemoved") && g.names[1].starts_with("__") {
                    continue;
                }
                c.probe(g.kind);
                got.push(g);
            }
            got.sort();
            c.obs(&format!("{}", got.len()));
            let mut rest = got.clone();
            for w in &want.out {
                match rest.iter().position(|g| g == w) {
                    Some(i) => {
                        rest.remove(i);
                    }
                    None => {
                        let like = rest.iter().find(|g| g.kind == w.kind && g.path == w.path);
                        let key = match like {
                            Some(g) if g.what == w.what => format!("criticality of {}", w.kind),
                            Some(_) => format!("content of {}", w.kind),
                            None => format!("missed {}", w.kind),
                        };
                        return viol(key, format!("want {w:?}\nlike {like:?}\ngot {got:?}\n--- old\n{}\n--- new\n{}", sdl(&old), sdl(&new)));
                    }
                }
            }
            if let Some(g) = rest.first() {
                return viol(format!("false {}", g.kind), format!("got {g:?}\nwant {:?}\n--- old\n{}\n--- new\n{}", want.out, sdl(&old), sdl(&new)));
            }
            Ok(got.len())
        })
    })
}

fn run(c: &mut Ctx) -> R {
    let weird_strings = c.t.chance(1, 4);
    let first = gen_schema(&mut c.t, &SchemaCfg { descs: true, schema_dirs: true, weird_strings, max_types: 7, ..Default::default() });
    let teams = c.t.range(2, 3);
    let mut log: Vec<Schema> = vec![first.clone()];
    let mut texts: Vec<String> = vec![schema_src(&first, Style::Noisy, &mut c.t)];
    c.input(&texts[0]);
    // what the registry has received, in the order of arrival
    let mut seen: Vec<usize> = vec![0];
    let mut sent: Vec<usize> = vec![];
    for _ in 0..c.t.range(3, 9) {
        let who = c.t.pick(teams);
        if c.t.chance(1, 2) || log.len() < 2 {
            c.step(who, "publish");
            let base = c.t.pick(log.len());
            let base = if c.t.chance(3, 4) { log.len() - 1 } else { base };
            let mut s = log[base].clone();
            for _ in 0..c.t.range(1, 6) {
                match edit(&mut c.t, &mut s) {
                    Some(w) => c.probe(w),
                    None => c.probe("edit_not_applicable"),
                }
            }
            let src = if c.t.chance(1, 2) { schema_src(&s, Style::Noisy, &mut c.t) } else { schema_plain(&s) };
            c.input(&src);
            texts.push(src);
            log.push(s);
            sent.push(log.len() - 1);
        } else {
            c.step(who, "compare");
            // delivery
            if !sent.is_empty() {
                let k = if c.f(1, 3) {
                    c.fault("version_out_of_order");
                    c.t.pick(sent.len())
                } else {
                    0
                };
                let v = sent[k];
                if c.f(1, 4) {
                    c.fault("version_duplicated");
                } else {
                    sent.remove(k);
                }
                seen.push(v);
            }
            let seed = if c.f(1, 3) {
                c.fault("registry_crash_restart");
                c.t.raw() as u64
            } else {
                c.hash_seed
            };
            let b = *seen.last().unwrap();
            let a = seen[c.t.pick(seen.len())];
            let n = crate::alloc::with_hash_seed(seed, || judge(c, &texts[a], &texts[b]))?;
            judge(c, &texts[b], &texts[a])?;
            if n > 0 {
                c.nontrivial = true;
            }
            if log[a] == log[b] {
                ensure!(n == 0, "self comparison", "{n} changes\n{}", texts[a]);
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ known findings

fn silent(a: &str, b: &str) -> Option<String> {
    let r = with_schema(a, |x| with_schema(b, |y| Ok(compare(x, y).changes.len())));
    match r {
        Ok(0) => Some(format!("no change reported between {a:?} and {b:?}")),
        _ => None,
    }
}
fn known_roots() -> Option<String> {
    silent("schema { query: Q mutation: M } type Q { a: Int } type M { a: Int }", "schema { query: Q } type Q { a: Int } type M { a: Int }")
}
fn known_repeatable() -> Option<String> {
    silent("directive @d repeatable on FIELD type Query { a: Int }", "directive @d on FIELD type Query { a: Int }")
}
fn known_interfaces() -> Option<String> {
    silent("interface I { a: Int } interface J implements I { a: Int } type Query { a: Int }", "interface I { a: Int } interface J { a: Int } type Query { a: Int }")
}
fn known_description() -> Option<String> {
    silent("\"x\" schema { query: Q } type Q { a: Int }", "\"y\" schema { query: Q } type Q { a: Int }")
}
fn known_arg_dirs() -> Option<String> {
    silent("directive @d(a: Int @deprecated) on FIELD type Query { a: Int }", "directive @d(a: Int) on FIELD type Query { a: Int }")
}
