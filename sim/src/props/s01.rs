//! S01/S02: tenants share one schema through scoped views. A view shows exactly what its tenant may
//! see, whatever was asked before (S01), and also after the tenant's policy failed half way (S02).
use super::Prop;
use crate::ctx::{viol, Ctx, R};
use crate::gen::*;
use crate::model::*;
use crate::mutate::mutate;
use crate::refparse;
use crate::refval;
use crate::runner::{guard, Injected};
use crate::snap;
use crate::tenant::*;
use crate::world::*;
use bluejay_core::definition::{prelude::*, FieldDefinition, FieldsDefinition, OutputType, OutputTypeReference, ScalarTypeDefinition, SchemaDefinition, TypeDefinitionReference as T};
use bluejay_core::AsIter;
use bluejay_printer::definition::SchemaDefinitionPrinter;
use bluejay_visibility as bv;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::rc::Rc;

pub const S01: Prop = Prop {
    id: "S01",
    run: run_01,
    known: &[],
    quick_secs: 40,
    thorough_secs: 600,
    min_secs: 40,
    rule: "A run builds a schema whose elements carry feature groups (incl. alternative versions of a field), 2-3 tenants, and interleaves 6-30 operations (list types, look up types, fields, implementors and directives, walk fields, validate documents, print, open another view on the shared cache, drop and rebuild the cache) of all tenants in a random order. Non-trivial: at least one element was hidden and at least one operation compared.",
    real: "bluejay-visibility (cache, scoped schema), bluejay-validator and bluejay-printer on top of it, bluejay-parser",
    stub: "the tenants' policy (warden), clients",
    assumptions: "at most one version of a field is visible to a tenant; reference: projection of the model schema",
};
pub const S02: Prop = Prop {
    id: "S02",
    run: run_02,
    known: &[],
    quick_secs: 40,
    thorough_secs: 600,
    min_secs: 40,
    rule: "As S01, with the policy failing (unwinding) at a random question inside a random operation; the operation is abandoned, work goes on on the same cache, and the operation is retried once the fault is gone. Non-trivial: at least one injected failure fired inside an operation.",
    real: "bluejay-visibility (cache, scoped schema), bluejay-validator and bluejay-printer on top of it, bluejay-parser",
    stub: "the tenants' policy (warden) and its failures, clients",
    assumptions: "a failing policy unwinds (panics) rather than aborting; reference: projection of the model schema",
};

type W<'a> = SimWarden<'a>;
type Cache<'a, 's> = bv::Cache<'s, RS<'a>, W<'a>>;
type View<'a, 's> = bv::SchemaDefinition<'s, RS<'a>, W<'a>>;

fn run_01(c: &mut Ctx) -> R {
    world(c, false)
}
fn run_02(c: &mut Ctx) -> R {
    world(c, true)
}

struct Known {
    tenant: Rc<Tenant>,
    /// all the tenant may see
    p: Schema,
    /// the same with introspection, for validation
    full: Schema,
    listed: Schema,
    docs_ok: bool,
    prints: bool,
}

fn world(c: &mut Ctx, panics: bool) -> R {
    let base = gen_schema(&mut c.t, &SchemaCfg::default());
    let mut s = base.clone();
    decorate(&mut c.t, &mut s, true);
    let n = c.t.range(2, 3);
    let tenants: Vec<Rc<Tenant>> = (0..n).map(|_| Rc::new(gen_tenant(&mut c.t, &s))).collect();
    // a name with two visible versions has no single meaning
    for t in &tenants {
        let p = project(&s, t);
        if ambiguous(&p) {
            for td in &p.types {
                for (i, f) in td.fields().iter().enumerate() {
                    if td.fields()[..i].iter().any(|g| g.name == f.name) {
                        let fs = s.ty_mut(&td.name).unwrap().fields_mut().unwrap();
                        while fs.iter().filter(|g| g.name == f.name).count() > 1 {
                            let k = fs.iter().rposition(|g| g.name == f.name).unwrap();
                            fs.remove(k);
                        }
                    }
                }
            }
        }
    }
    let known: Vec<Known> = tenants
        .iter()
        .map(|t| {
            let p = project(&s, t);
            let listed = reachable(&p);
            let prints = listed.types.iter().all(|t| match &t.kind {
                Kind::Scalar => true,
                Kind::Enum(v) => !v.is_empty(),
                Kind::Input(f) => !f.is_empty(),
                Kind::Object(_, f) | Kind::Interface(_, f) => !f.is_empty(),
                Kind::Union(m) => !m.is_empty(),
            });
            Known { tenant: t.clone(), full: p.with_introspection(), docs_ok: usable(&p), listed, prints, p }
        })
        .collect();
    let src = schema_src(&s, Style::Plain, &mut c.t);
    c.input(&src);
    for t in &tenants {
        c.note(|| format!("tenant {t:?}"));
    }
    with_schema(&src, |rs| {
        // two lives of every tenant's cache
        let caches: Vec<Cache<'_, '_>> = (0..2 * n).map(|i| bv::Cache::new(SimWarden::new(tenants[i % n].clone()), rs)).collect();
        let mut views: Vec<Vec<View<'_, '_>>> = (0..n).map(|_| vec![]).collect();
        let mut epoch = vec![0usize; n];
        let hidden = known.iter().any(|k| k.p.types.len() < s.types.len() || k.listed.types.len() < s.types.len() || fields_of(&k.p) < fields_of(&s));
        let mut fired = 0;
        let steps = c.t.range(6, 30);
        let mut retry: Option<(usize, usize, usize, Vec<u32>)> = None;
        for _ in 0..steps {
            let (k, what) = (c.t.pick(n), c.t.pick(13));
            let cache: &Cache<'_, '_> = &caches[epoch[k] * n + k];
            if c.faults_on && epoch[k] == 0 && c.t.chance(1, 30) {
                c.fault("cache_lost");
                epoch[k] = 1;
                views[k].clear();
                continue;
            }
            let armed = panics && c.faults_on && c.t.chance(1, 3);
            if armed {
                let span = *c.t.choose(&[2, 8, 40]);
                let at = cache.warden().calls.get() + c.t.pick(span) as u64;
                cache.warden().panic_at.set(Some(at));
            }
            let r = catch_unwind(AssertUnwindSafe(|| guard_keep(|| operation(c, &s, &base, &known[k], cache, &mut views[k], what))));
            let still = cache.warden().panic_at.take().is_some();
            match r {
                Ok(r) => r?,
                Err(_) => {
                    ensure!(armed && !still, "unexpected unwind", "an operation unwound without an injected fault");
                    c.fault("policy_failure");
                    fired += 1;
                    retry = Some((k, what, 0, vec![]));
                }
            }
            if let Some((k, what, ..)) = retry.take() {
                if c.t.chance(2, 3) {
                    let cache: &Cache<'_, '_> = &caches[epoch[k] * n + k];
                    c.probe("retried");
                    operation(c, &s, &base, &known[k], cache, &mut views[k], what)?;
                }
            }
        }
        // once nothing fails any more every view is complete
        for k in 0..n {
            let cache: &Cache<'_, '_> = &caches[epoch[k] * n + k];
            for what in [0, 9] {
                operation(c, &s, &base, &known[k], cache, &mut views[k], what)?;
            }
        }
        c.nontrivial = hidden && (!panics || fired > 0 || !c.faults_on);
        Ok(())
    })
}
fn fields_of(s: &Schema) -> usize {
    s.types.iter().map(|t| t.fields().len() + t.in_fields().len()).sum()
}

/// like `guard`, but an injected unwind goes on
fn guard_keep<T>(f: impl FnOnce() -> R<T>) -> R<T> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(e) if e.is::<Injected>() => std::panic::resume_unwind(e),
        Err(e) => guard(|| std::panic::resume_unwind(e)),
    }
}

fn same_type(k: &Known, name: &str, got: Option<TypeDef>, how: &str) -> R {
    let want = k.p.ty(name).cloned();
    ensure!(got == want, format!("type differs ({how})"), "tenant {:?} sees of type {name} ({how})\n{got:?}\nand should see\n{want:?}", k.tenant);
    Ok(())
}

fn operation<'a, 's>(c: &mut Ctx, s: &Schema, base: &Schema, k: &Known, cache: &'s Cache<'a, 's>, views: &mut Vec<View<'a, 's>>, what: usize) -> R
where
    'a: 's,
{
    let who = 0;
    if views.is_empty() || what == 8 {
        c.step(who, "open");
        let v = bv::SchemaDefinition::new(cache);
        if k.tenant.hide_root.is_some() {
            c.eval();
            c.probe("refused_view");
            ensure!(v.is_err(), "view without a query root", "tenant {:?} may not see the query root and gets a view", k.tenant);
            return Ok(());
        }
        match v {
            Ok(v) => {
                if views.len() > 2 {
                    views.remove(0);
                }
                views.push(v)
            }
            Err(e) => return viol("no view", format!("{e:?}")),
        }
    }
    let v = {
        let i = c.t.pick(views.len());
        &views[i]
    };
    let names: Vec<&str> = s.types.iter().map(|t| t.name.as_str()).collect();
    c.eval();
    match what {
        0 => {
            c.step(who, "list");
            let got = snap::schema(v);
            let want = &k.listed;
            c.obs(&format!("{:?}", got.types.iter().map(|t| &t.name).collect::<Vec<_>>()));
            let gn: Vec<_> = got.types.iter().map(|t| &t.name).collect();
            let wn: Vec<_> = want.types.iter().map(|t| &t.name).collect();
            ensure!(gn == wn, "types listed", "tenant {:?} is shown types {gn:?} and should be shown {wn:?}", k.tenant);
            let gn: Vec<_> = got.directives.iter().map(|t| &t.name).collect();
            let wn: Vec<_> = want.directives.iter().map(|t| &t.name).collect();
            ensure!(gn == wn, "directives listed", "tenant {:?} is shown directives {gn:?} and should be shown {wn:?}", k.tenant);
            for (g, w) in got.types.iter().zip(&want.types) {
                ensure!(g == w, "type differs (listed)", "tenant {:?} is shown\n{g:?}\nand should be shown\n{w:?}", k.tenant);
            }
            for (g, w) in got.directives.iter().zip(&want.directives) {
                ensure!(g == w, "directive differs (listed)", "tenant {:?} is shown\n{g:?}\nand should be shown\n{w:?}", k.tenant);
            }
            ensure!((&got.query, &got.mutation, &got.subscription, &got.dirs, &got.desc) == (&want.query, &want.mutation, &want.subscription, &want.dirs, &want.desc), "roots", "{:?} {:?} {:?}", got.query, got.mutation, got.subscription);
        }
        1 | 2 => {
            c.step(who, "type");
            let n = if c.t.chance(1, 10) { "Nope" } else { *c.t.choose(&names) };
            let got = v.get_type_definition(n);
            ensure!(got.is_some() == k.p.ty(n).is_some(), "type visible", "tenant {:?}: looking up {n} gives {}", k.tenant, got.is_some());
            same_type(k, n, got.and_then(|t| snap::type_def(t, false)), "looked up")?;
        }
        3 | 4 => {
            c.step(who, "field");
            let n = *c.t.choose(&names);
            let fs: Vec<String> = s.ty(n).map(|t| t.fields().iter().map(|f| f.name.clone()).collect()).unwrap_or_default();
            let f = if fs.is_empty() || c.t.chance(1, 8) { (*c.t.choose(&FIELD_NAMES)).to_string() } else { c.t.choose(&fs).clone() };
            let want = k.p.field(n, &f).cloned();
            let (got, has) = match v.get_type_definition(n) {
                Some(T::Object(o)) => (o.fields_definition().get(&f).map(snap::field), o.fields_definition().contains_field(&f)),
                Some(T::Interface(o)) => (o.fields_definition().get(&f).map(snap::field), o.fields_definition().contains_field(&f)),
                _ => (None, false),
            };
            ensure!(got == want, "field differs", "tenant {:?} gets {n}.{f} = {got:?}, should be {want:?}", k.tenant);
            ensure!(has == want.is_some(), "field visible", "tenant {:?}: {n}.{f} contained: {has}", k.tenant);
        }
        5 => {
            c.step(who, "implementors");
            let n = *c.t.choose(&names);
            if k.p.ty(n).is_some_and(|t| t.is_interface()) {
                let mut got = snap::implementors(v, n);
                let mut want = k.p.possible(n);
                got.sort();
                want.sort();
                ensure!(got == want, "implementors", "tenant {:?}: implementors of {n} {got:?}, should be {want:?}", k.tenant);
            }
        }
        6 => {
            c.step(who, "directive");
            let ds: Vec<&str> = s.directives.iter().map(|d| d.name.as_str()).chain(["deprecated", "skip", "nope"]).collect();
            let n = *c.t.choose(&ds);
            let got = v.get_directive_definition(n).map(snap::dir_def);
            match n {
                "deprecated" | "skip" => ensure!(got.is_some() != k.tenant.hide_dirs.contains(n), "directive visible", "{n} {:?}", k.tenant),
                _ => ensure!(got == k.p.dir(n).cloned(), "directive differs", "tenant {:?}: {n} {got:?}", k.tenant),
            }
        }
        7 => {
            c.step(who, "walk");
            let mut at = c.t.pick(3);
            let mut cur = match at {
                1 => v.mutation().unwrap_or(v.query()),
                2 => v.subscription().unwrap_or(v.query()),
                _ => v.query(),
            };
            for _ in 0..c.t.range(1, 6) {
                same_type(k, cur.name(), snap::type_def(T::Object::<bv::TypeDefinition<'_, RS<'_>, W<'_>>>(cur), false), "walked to")?;
                let nf = k.p.ty(cur.name()).map_or(0, |t| t.fields().len());
                if nf == 0 {
                    break;
                }
                at = c.t.pick(nf);
                let Some(f) = cur.fields_definition().iter().filter(|f| !f.is_builtin()).nth(at) else { break };
                let mut ty = f.r#type().as_ref(v);
                let b = loop {
                    match ty {
                        OutputTypeReference::List(i, _) => ty = i.as_ref(v),
                        OutputTypeReference::Base(b, _) => break b,
                    }
                };
                use bluejay_core::definition::BaseOutputTypeReference as B;
                match b {
                    B::Object(o) => cur = o,
                    B::Interface(i) => {
                        same_type(k, i.name(), snap::type_def(T::Interface::<bv::TypeDefinition<'_, RS<'_>, W<'_>>>(i), false), "walked to")?;
                        let o: Vec<_> = v.get_interface_implementors(i).collect();
                        if o.is_empty() {
                            break;
                        }
                        cur = *c.t.choose(&o);
                    }
                    B::Union(u) => {
                        same_type(k, u.name(), snap::type_def(T::Union::<bv::TypeDefinition<'_, RS<'_>, W<'_>>>(u), false), "walked to")?;
                        break;
                    }
                    B::Enum(u) => {
                        same_type(k, u.name(), snap::type_def(T::Enum::<bv::TypeDefinition<'_, RS<'_>, W<'_>>>(u), false), "walked to")?;
                        break;
                    }
                    _ => break,
                }
            }
        }
        8 => {}
        9 | 10 | 11 => {
            c.step(who, "validate");
            let own = k.docs_ok && c.t.chance(1, 2);
            let intro = c.t.chance(1, 5);
            let gs = if !own {
                base
            } else if intro {
                &k.full
            } else {
                &k.p
            };
            let merge_heavy = c.t.chance(1, 4);
            let mut d = gen_doc(&mut c.t, gs, &DocCfg { max_depth: 3, budget: 20, merge_heavy, ..Default::default() });
            let clean = !c.faults_on || c.t.chance(2, 3);
            if !clean {
                let m = mutate(&mut c.t, gs, &mut d);
                c.note(|| format!("edit: {m}"));
            }
            let src = doc_src(&d, Style::Plain, &mut c.t);
            c.note(|| src.clone());
            // the reference knows the built-in directives as always visible
            if refparse::parse(&src).is_err() || (src.contains("deprecated") && k.tenant.hide_dirs.contains("deprecated")) {
                return Ok(());
            }
            let _strict = refval::strict(k.tenant.strict_scalars);
            let e = parse_valid(&src)?;
            let mut want = super::s07::judge_on(c, &k.full, &src, &d, &e, v)?;
            if own && clean && k.tenant.strict_scalars {
                want = refval::validate(&k.full, &d).is_empty();
                c.probe("strict_scalars");
            } else if own && clean {
                ensure!(want, "harness", "generated document rejected by the reference {}", src);
            }
            c.obs(if want { "accepted" } else { "rejected" });
            c.probe(if want { "accepted" } else { "rejected" });
        }
        _ => {
            c.step(who, "print");
            let sc: Vec<&str> = k.p.types.iter().filter(|t| t.is_scalar()).map(|t| t.name.as_str()).collect();
            if !sc.is_empty() {
                let n = *c.t.choose(&sc);
                if let Some(T::CustomScalar(x)) = v.get_type_definition(n) {
                    let e = parse_valid("{a(x:true,y:1)}")?;
                    use bluejay_core::executable::{ExecutableDocument, Field, OperationDefinition, Selection, SelectionReference};
                    use bluejay_core::Argument;
                    let o = ExecutableDocument::operation_definitions(&e).next().unwrap();
                    let mut r = vec![];
                    for sel in OperationDefinition::as_ref(o).selection_set().iter() {
                        if let SelectionReference::Field(f) = sel.as_ref() {
                            r.extend(f.arguments().unwrap().iter().map(|a| x.coerce_input(a.value()).is_ok()));
                        }
                    }
                    ensure!(r == [!k.tenant.strict_scalars, true], "scalar policy", "tenant {:?}: custom scalar {n} accepts {r:?}", k.tenant);
                }
            }
            if k.prints {
                let text = SchemaDefinitionPrinter::to_string(v);
                let Ok(sdl) = refparse::parse_sdl(&text) else { return viol("print", format!("unreadable: {text}")) };
                let Some(mut got) = sdl.model() else { return viol("print", format!("no roots: {text}")) };
                got.explicit = false;
                got.types.sort_by(|a, b| a.name.cmp(&b.name));
                got.directives.sort_by(|a, b| a.name.cmp(&b.name));
                ensure!(got == k.listed, "printed view differs", "tenant {:?} is sent\n{text}\nbut should see\n{}", k.tenant, crate::world::sdl(&k.listed));
            }
        }
    }
    Ok(())
}
