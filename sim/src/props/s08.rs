//! S08: variable values that arrive with a request are admitted exactly when they can be coerced.
use super::Prop;
use crate::ctx::{viol, Ctx, R};
use crate::gen::*;
use crate::model::*;
use crate::net::transmit;
use crate::refval::scalar_policy;
use crate::vars::*;
use crate::world::*;
use bluejay_validator::executable::operation::{analyzers::{VariableValueError, VariableValuesAreValid}, OperationResolutionError, Orchestrator};
use bluejay_validator::executable::Cache;
use bluejay_validator::value::input_coercion::Error as CE;

pub const PROP: Prop = Prop {
    id: "S08",
    run,
    known: &[],
    quick_secs: 40,
    thorough_secs: 600,
    min_secs: 30,
    rule: "A run keeps 1-3 stored documents at a gateway and interleaves 2-4 clients that call them by operation name with variable values as JSON over a faulty transport; clients with version skew damage 0-3 places of the values (10 kinds), call the wrong operation or lose the operation name. What parses as JSON is admitted or refused by the gateway and by the reference coercion. Non-trivial: at least one set of values for an operation with variables was judged.",
    real: "bluejay-validator operation orchestrator, VariableValuesAreValid, input coercion, variable type cache; bluejay-parser; bluejay-core JSON values",
    stub: "transport, clients, gateway loop",
    assumptions: "reference: CoerceVariableValues of the October 2021 specification plus oneOf; integers beyond 32 bits are not IDs; custom scalars accept what the simulated schema's own scalar policy accepts (half of the faulty runs: a seeded third of the kinds of value refused per scalar)",
};

fn path_of<V: bluejay_core::Value<true>>(e: &CE<'_, true, V>) -> (&'static str, String) {
    let (k, p) = match e {
        CE::NullValueForRequiredType { path, .. } => ("null", path),
        CE::NoImplicitConversion { path, .. } => ("type", path),
        CE::NoEnumMemberWithName { path, .. } => ("enum", path),
        CE::NoValueForRequiredFields { path, .. } => ("missing fields", path),
        CE::NonUniqueFieldNames { path, .. } => ("unique", path),
        CE::NoInputFieldWithName { path, .. } => ("unknown field", path),
        CE::CustomScalarInvalidValue { path, .. } => ("custom", path),
        CE::OneOfInputNullValues { path, .. } => ("oneOf null", path),
        CE::OneOfInputNotSingleNonNullValue { path, .. } => ("oneOf count", path),
    };
    (k, p.to_vec::<String>().iter().map(|x| format!("/{x}")).collect())
}

/// the gateway's verdict: Err(resolution) or the sorted complaints
pub fn admit<S: bluejay_core::definition::SchemaDefinition>(e: &RE<'_>, s: &S, name: Option<&str>, vars: &Vars) -> Result<Vec<(String, &'static str, String)>, &'static str> {
    let cache = Cache::new(e, s);
    admit_in(e, s, &cache, name, vars)
}
fn admit_in<'a, S: bluejay_core::definition::SchemaDefinition>(e: &'a RE<'a>, s: &'a S, cache: &'a Cache<'a, RE<'a>, S>, name: Option<&str>, vars: &'a Vars) -> Result<Vec<(String, &'static str, String)>, &'static str> {
    use bluejay_core::executable::VariableDefinition;
    use bluejay_core::Variable;
    let r = Orchestrator::<_, _, _, VariableValuesAreValid<_, _, _>>::analyze(e, s, name, vars, cache, ());
    match r {
        Err(OperationResolutionError::NoOperationWithName { .. }) => Err("no operation"),
        Err(OperationResolutionError::AnonymousNotEligible) => Err("ambiguous"),
        Ok(errs) => {
            let mut out = vec![];
            for e in &errs {
                match e {
                    VariableValueError::MissingValue { variable_definition } => out.push((variable_definition.variable().name().to_string(), "missing", String::new())),
                    VariableValueError::UnusedValue { key, .. } => out.push((key.to_string(), "unused", String::new())),
                    VariableValueError::InvalidValue { variable_definition, errors, .. } => {
                        for x in errors {
                            let (k, p) = path_of(x);
                            out.push((variable_definition.variable().name().to_string(), k, p));
                        }
                    }
                }
                if e.message().is_empty() {
                    return Err("empty message");
                }
            }
            out.sort();
            Ok(out)
        }
    }
}

/// which operation a request means
pub fn resolve<'d>(d: &'d Doc, name: Option<&str>) -> Result<&'d Op, &'static str> {
    let ops: Vec<&Op> = d.ops().collect();
    match name {
        Some(n) => ops.iter().find(|o| o.name.as_deref() == Some(n)).copied().ok_or("no operation"),
        None if ops.len() == 1 => Ok(ops[0]),
        None => Err("ambiguous"),
    }
}

/// Operations declare variables beyond those their selections use, of any input type of the schema.
fn declare_more(c: &mut Ctx, s: &Schema, d: &mut Doc) {
    let mut tys = input_types(s);
    // those a client builds by hand more often than plain scalars
    tys.extend(s.types.iter().filter(|t| t.is_input() || t.is_enum()).flat_map(|t| [t.name.clone(), t.name.clone()]));
    for def in d.defs.iter_mut() {
        let Def::Op(o) = def else { continue };
        for i in 0..c.t.pick(5) {
            let n = c.t.choose(&tys).clone();
            let ty = wrap_ty(&mut c.t, &n, true);
            if value_rank(s, ty.with_req(true), 6) > 3 {
                continue;
            }
            let default = c.t.chance(1, 4).then(|| const_val(&mut c.t, s, &ty, 2, false));
            o.shorthand = false;
            o.vars.push(VarDef { name: format!("w{i}"), ty, default, dirs: vec![] });
        }
    }
}

fn run(c: &mut Ctx) -> R {
    let s = gen_schema(&mut c.t, &SchemaCfg::default());
    let ssrc = schema_src(&s, Style::Plain, &mut c.t);
    c.input(&ssrc);
    let nd = c.t.range(1, 3);
    let docs: Vec<(Doc, String)> = (0..nd)
        .map(|_| {
            let mut d = gen_doc(&mut c.t, &s, &DocCfg { budget: 20, max_depth: 3, ..Default::default() });
            declare_more(c, &s, &mut d);
            let src = doc_src(&d, Style::Plain, &mut c.t);
            c.input(&src);
            (d, src)
        })
        .collect();
    let mut calls: Vec<(usize, Option<String>, String, Vars, bool)> = vec![];
    {
        let n = c.t.range(2, 4);
        let mut prev: Option<String> = None;
        for _ in 0..c.t.range(n, 4 * n) {
        let who = c.t.pick(n);
        c.step(who, "call");
        let k = c.t.pick(nd);
        let d = &docs[k].0;
        let ops: Vec<&Op> = d.ops().collect();
        let op = ops[c.t.pick(ops.len())];
        let mut vars = gen_vars(&mut c.t, &s, op);
        let mut clean = true;
        if c.faults_on {
            for _ in 0..c.t.pick(4) {
                let m = spoil(&mut c.t, &s, &mut vars);
                clean = false;
                c.fault("skewed_value");
                c.note(|| format!("damage: {m}"));
            }
        }
        let mut name = op.name.clone();
        if c.f(1, 8) {
            c.fault("wrong_operation");
            clean = false;
            name = match c.t.pick(3) {
                0 => None,
                1 => Some("Nope".into()),
                _ => ops[c.t.pick(ops.len())].name.clone(),
            };
        }
        let sent = serde_json::Value::Object(vars).to_string();
        let (got, faults) = if c.f(1, 4) { transmit(c, &sent, prev.as_deref(), 2) } else { (sent.clone(), 0) };
        prev = Some(sent);
        c.input(&got);
        let Ok(serde_json::Value::Object(vars)) = serde_json::from_str(&got) else {
            ensure!(faults > 0, "harness", "{got}");
            c.probe("not_json");
            continue;
        };
    calls.push((k, name, got, vars, clean && faults == 0));
        }
    }
    // the schema's own scalars may refuse kinds of values
    let policy = if c.faults_on && c.t.chance(1, 2) { c.t.raw() } else { 0 };
    if policy != 0 {
        c.fault("scalar_refusals");
    }
    let _policy = scalar_policy(policy);
    with_schema_of(&ssrc, |rs: &SimRS<'_>| {
        let parsed: Vec<RE<'_>> = docs.iter().map(|(_, src)| parse_valid(src)).collect::<R<Vec<_>>>()?;
        let caches: Vec<Cache<'_, RE<'_>, SimRS<'_>>> = parsed.iter().map(|e| Cache::new(e, rs)).collect();
        for (k, name, got, vars, clean) in &calls {
            let (k, clean) = (*k, *clean);
            let d = &docs[k].0;
            let real = match c.t.pick(4) {
                0 => admit(&parsed[k], rs, name.as_deref(), vars),
                _ => admit_in(&parsed[k], rs, &caches[k], name.as_deref(), vars),
            };
            let want = resolve(d, name.as_deref()).map(|op| judge(&s, op, vars));
            c.eval();
            c.obs(&format!("{real:?}"));
            if let Ok(w) = &want {
                if !resolve(d, name.as_deref()).unwrap().vars.is_empty() {
                    c.nontrivial = true;
                }
                for x in w {
                    c.probe(x.1);
                }
                if w.is_empty() {
                    c.probe("admitted");
                }
            }
            if clean && policy == 0 {
                ensure!(want == Ok(vec![]), "harness", "{want:?} {got}\n{}", docs[k].1);
            }
            if real != want {
                let key = match (&real, &want) {
                    (Ok(r), Ok(w)) => match (r.iter().find(|x| !w.contains(x)), w.iter().find(|x| !r.contains(x))) {
                        (_, Some(x)) => format!("missed {}", x.1),
                        (Some(x), _) => format!("false {}", x.1),
                        _ => "count".into(),
                    },
                    _ => "operation resolution".into(),
                };
                return viol(key, format!("operation {name:?} with {got}\nreference: {want:?}\ngateway: {real:?}\n{}\n{}", docs[k].1, sdl(&s)));
            }
        }
        Ok(())
    })
}
