//! S16: the registry admits a schema document exactly when it is one, and then serves what was written.
use super::Prop;
use crate::ctx::{viol, Ctx, R};
use crate::gen::*;
use crate::model::*;
use crate::refval;
use bluejay_core::definition::{DirectiveDefinition as _, SchemaDefinition as _};
use crate::net::transmit;
use crate::refparse;
use crate::sdlmut::*;
use crate::snap;
use crate::world::*;
use bluejay_parser::ast::definition::{DefaultContext, DefinitionDocument, SchemaDefinition};
use bluejay_parser::ast::Parse;
use bluejay_validator::definition::BuiltinRulesValidator;

pub const PROP: Prop = Prop {
    id: "S16",
    run,
    known: &[],
    quick_secs: 40,
    thorough_secs: 600,
    min_secs: 30,
    rule: "A run interleaves 2-4 teams publishing schema documents to one registry: definitions in any order, 0-4 defects per document (24 kinds: duplicates, dangling and mistyped references, lost definitions, rings of input objects, broken schema blocks), and transport faults on the way. What arrives and is SDL is judged by the registry and by the reference; what is admitted is read back and compared. Non-trivial: at least one arriving document was judged.",
    real: "bluejay-parser definition document, name resolution, schema definition; bluejay-validator definition rules; bluejay-core definition traits",
    stub: "transport, teams, registry loop",
    assumptions: "reference: uniqueness and resolution of names, kinds of references, roots, directive names, uniqueness of enum values and input fields, input object rings; interface conformity and directive arguments in SDL are not checked by the registry and not required here",
};

fn msgs(src: &str, e: Vec<bluejay_parser::Error>) -> Vec<(&'static str, String)> {
    let mut v: Vec<_> = e.iter().map(|x| class_of(x.message())).collect();
    let _ = src;
    v.sort();
    v
}

pub fn admit(c: &mut Ctx, src: &str) -> R<Option<bool>> {
    let Ok(d) = refparse::parse_sdl(src) else { return Ok(None) };
    c.eval();
    let want = judge(&d);
    for w in &want {
        c.probe(w.0);
    }
    let doc: DefinitionDocument<DefaultContext> = match DefinitionDocument::parse(src) {
        Ok(d) => d,
        Err(e) => return viol("well-formed document rejected", format!("{}\n{src}", parser_errs(src, e))),
    };
    let s = match SchemaDefinition::try_from(&doc) {
        Err(e) => {
            let e: Vec<bluejay_parser::Error> = e.into_iter().map(Into::into).collect();
            let got = msgs(src, e);
            c.obs(&format!("{got:?}"));
            if got != want {
                let key = match (want.iter().find(|x| !got.contains(x)), got.iter().find(|x| !want.contains(x))) {
                    (Some(x), _) => format!("missed {}", x.0),
                    (_, Some(x)) => format!("false {}", x.0),
                    _ => "count".into(),
                };
                return viol(key, format!("reference: {want:?}\nregistry: {got:?}\n{src}"));
            }
            return Ok(Some(false));
        }
        Ok(s) => s,
    };
    if let Some(w) = want.first() {
        return viol(format!("missed {}", w.0), format!("admitted despite {want:?}\n{src}"));
    }
    let want = judge_rules(&d);
    let e: Vec<bluejay_parser::Error> = BuiltinRulesValidator::validate(&s).map(Into::into).collect();
    let got = msgs(src, e);
    c.obs(&format!("{got:?}"));
    for w in &want {
        c.probe(w.0);
    }
    if got != want {
        let key = match (want.iter().find(|x| !got.contains(x)), got.iter().find(|x| !want.contains(x))) {
            (Some(x), _) => format!("missed {}", x.0),
            (_, Some(x)) => format!("false {}", x.0),
            _ => "count".into(),
        };
        return viol(key, format!("definition rules, reference: {want:?}\nregistry: {got:?}\n{src}"));
    }
    // what it serves is what was written
    let Some(mut m) = d.model() else { return viol("harness", src) };
    m.explicit = false;
    m.types.sort_by(|a, b| a.name.cmp(&b.name));
    m.directives.sort_by(|a, b| a.name.cmp(&b.name));
    // redefined builtin scalars are custom scalars under a builtin name
    let mut real = snap::schema(&s);
    real.types.sort_by(|a, b| a.name.cmp(&b.name));
    real.directives.sort_by(|a, b| a.name.cmp(&b.name));
    ensure!(m == real, "schema differs", "written: {m:?}\nserved: {real:?}\n{src}");
    for i in m.types.iter().filter(|t| t.is_interface()) {
        let mut got = snap::implementors(&s, &i.name);
        got.sort();
        got.dedup();
        let mut w: Vec<String> = m.possible(&i.name);
        w.sort();
        w.dedup();
        ensure!(got == w, "implementors", "implementors of {}: {got:?} want {w:?}\n{src}", i.name);
    }
    builtins(&m, &s, src)?;
    Ok(Some(true))
}

/// What every admitted schema serves besides what was written: the introspection types, the builtin directives and the meta fields.
fn builtins(m: &Schema, s: &RS<'_>, src: &str) -> R {
    let plain = |mut t: TypeDef| {
        t.desc = None;
        match &mut t.kind {
            Kind::Object(_, f) => f.sort_by(|a, b| a.name.cmp(&b.name)),
            Kind::Enum(v) => v.sort_by(|a, b| a.name.cmp(&b.name)),
            _ => {}
        }
        t
    };
    let mut served: Vec<String> = s.type_definitions().map(|t| t.name().to_string()).collect();
    served.sort();
    let full = m.with_introspection();
    let mut want: Vec<String> = full.types.iter().map(|t| t.name.clone()).collect();
    want.extend(["Int", "Float", "String", "Boolean", "ID"].iter().map(|x| x.to_string()).filter(|x| m.ty(x).is_none()));
    want.sort();
    ensure!(served == want, "types served", "{served:?}\nwant {want:?}\n{src}");
    for t in full.types.iter().filter(|t| t.name.starts_with("__") && m.ty(&t.name).is_none()) {
        let Some(r) = s.get_type_definition(&t.name) else { return viol("introspection type", format!("{} missing\n{src}", t.name)) };
        ensure!(r.is_builtin(), "introspection type", "{} is not builtin\n{src}", t.name);
        let mut t = t.clone();
        if let Some(f) = t.fields_mut() {
            f.push(meta("__typename", vec![], Ty::Named("String".into(), true)));
        }
        let (got, want) = (snap::type_def(r, true).map(plain), Some(plain(t)));
        ensure!(got == want, "introspection type", "{got:?}\nwant {want:?}\n{src}");
    }
    // meta fields, on every composite type with fields, once
    for t in full.types.iter().filter(|t| !t.name.starts_with("__") && !t.fields().is_empty()) {
        let got = s.get_type_definition(&t.name).and_then(|r| snap::type_def(r, true)).map(plain);
        let mut w = t.clone();
        if let Some(f) = w.fields_mut() {
            f.push(meta("__typename", vec![], Ty::Named("String".into(), true)));
        }
        let (g, w) = (got.map(|g| metas(&g)).unwrap_or_default(), metas(&w));
        ensure!(g == w, "meta fields", "{}: {g:?}\nwant {w:?}\n{src}", t.name);
    }
    for d in refval::builtin_dirs() {
        let Some(r) = s.get_directive_definition(&d.name) else { return viol("builtin directive", format!("{} missing\n{src}", d.name)) };
        if m.dir(&d.name).is_some() {
            continue;
        }
        let mut got = snap::dir_def(r);
        got.desc = None;
        got.locs.sort();
        let mut w = d;
        w.locs.sort();
        ensure!(got == w && r.is_builtin(), "builtin directive", "{got:?}\nwant {w:?}\n{src}");
    }
    let n = s.directive_definitions().count();
    let want = m.directives.len() + refval::builtin_dirs().iter().filter(|d| m.dir(&d.name).is_none()).count();
    ensure!(n == want, "directives served", "{n} want {want}\n{src}");
    Ok(())
}
fn meta(n: &str, args: Vec<InVal>, ty: Ty) -> FieldDef {
    FieldDef { name: n.into(), desc: None, args, ty, dirs: vec![] }
}
fn metas(t: &TypeDef) -> Vec<FieldDef> {
    let mut v: Vec<FieldDef> = t.fields().iter().filter(|f| f.name.starts_with("__")).cloned().collect();
    v.iter_mut().for_each(|f| f.desc = None);
    v.sort_by(|a, b| a.name.cmp(&b.name));
    v
}

fn run(c: &mut Ctx) -> R {
    let n = c.t.range(2, 4);
    let mut prev: Option<String> = None;
    for _ in 0..c.t.range(n, 3 * n) {
        let who = c.t.pick(n);
        c.step(who, "publish");
        let descs = c.t.chance(1, 3);
        let schema_dirs = c.t.chance(1, 2);
        let s = gen_schema(&mut c.t, &SchemaCfg { descs, schema_dirs, ..Default::default() });
        let mut d = sdl_of(&s);
        let k = if c.faults_on { c.t.pick(5) } else { 0 };
        for _ in 0..k {
            let m = damage(&mut c.t, &mut d);
            c.fault("schema_defect");
            c.note(|| format!("defect: {m}"));
        }
        let src = render(&d, Some(&mut c.t));
        let (got, faults) = if c.f(1, 3) { transmit(c, &src, prev.as_deref(), 2) } else { (src.clone(), 0) };
        c.input(&got);
        let r = admit(c, &got)?;
        if r.is_some() {
            c.nontrivial = true;
        }
        if k == 0 && faults == 0 {
            ensure!(r == Some(true), "clean schema refused", "{src}");
            // admitted again after a restart, whatever the hash seeds
            if c.t.chance(1, 4) {
                let seed = c.t.raw() as u64;
                c.fault("registry_restart");
                let ok = crate::alloc::with_hash_seed(seed, || with_schema(&src, |_| Ok(())));
                ok?;
            }
        }
        prev = Some(src);
    }
    Ok(())
}
