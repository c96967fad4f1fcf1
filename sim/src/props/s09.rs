//! S09: the gateway meters every request exactly: cost, depth, list sizes, deprecated elements.
use super::s08::resolve;
use super::Prop;
use crate::ctx::{viol, Ctx, R};
use crate::ensure;
use crate::gen::*;
use crate::meter::*;
use crate::model::*;
use crate::tape::Tape;
use crate::net::transmit;
use crate::vars::*;
use crate::world::*;
use bluejay_core::definition::SchemaDefinition as CoreSchema;
use bluejay_validator::executable::operation::analyzers::complexity_cost::RelayCostComputer;
use bluejay_validator::executable::operation::{analyzers::*, Orchestrator};
use bluejay_validator::executable::Cache;
use std::collections::BTreeSet;

pub const PROP: Prop = Prop {
    id: "S09",
    run,
    known: &[],
    quick_secs: 40,
    thorough_secs: 600,
    min_secs: 40,
    rule: "A run stores 1-3 documents (with @skip/@include, fragments on abstract types, connections, introspection) at a gateway whose schema carries prices, page sizes and deprecations; 2-4 clients call them with variable values over a faulty transport, replay calls and inflate lists; the gateway loses its caches at arbitrary calls. Every call whose values the reference coercion admits is metered five ways and compared. Non-trivial: at least one metered operation selects below the root or has list arguments.",
    real: "bluejay-validator operation orchestrator, QueryDepth, ComplexityCost with both cost computers, InputSize, Deprecation, variable evaluation, validator cache; bluejay-parser",
    stub: "transport, clients, gateway loop",
    assumptions: "reference: field collection on concrete types. The cost must be at least that of the worst execution, at most that of the worst combination of type conditions. Usages below a skipped element may or may not be reported; those below an included one must be.",
};

fn meter_all<'a, S: CoreSchema>(e: &'a RE<'a>, s: &'a S, cache: &'a Cache<'a, RE<'a>, S>, n: Option<&str>, v: &'a Vars, max: usize) -> Option<(usize, usize, usize, BTreeSet<(String, usize)>, BTreeSet<Use>)> {
    let depth = Orchestrator::<_, _, _, QueryDepth>::analyze(e, s, n, v, cache, ()).ok()?;
    let plain = Orchestrator::<_, _, _, ComplexityCost<_, _, _>>::analyze(e, s, n, v, cache, ()).ok()?;
    let relay = Orchestrator::<_, _, _, ComplexityCost<_, _, _, RelayCostComputer<_, _, _>>>::analyze(e, s, n, v, cache, ()).ok()?;
    let long = Orchestrator::<_, _, _, InputSize<_, _>>::analyze(e, s, n, v, cache, max).ok()?.into_iter().map(|o| (o.name, o.size)).collect();
    let dep = Orchestrator::<_, _, _, Deprecation<_, _, _>>::analyze(e, s, n, v, cache, ())
        .ok()?
        .into_iter()
        .map(|o| {
            let k = match format!("{:?}", o.offense_type).as_str() {
                "Argument" => "argument",
                "EnumValue" => "enum value",
                "InputField" => "input field",
                "Field" => "field",
                _ => "variable",
            };
            (k, o.name.to_string(), o.reason.to_string())
        })
        .collect();
    Some((depth, plain, relay, long, dep))
}

fn between<T: Ord + std::fmt::Debug>(what: &str, got: &BTreeSet<T>, must: &BTreeSet<T>, may: &BTreeSet<T>, ctx: &dyn Fn() -> String) -> R {
    if let Some(x) = must.iter().find(|x| !got.contains(x)) {
        return viol(format!("missed {what}"), format!("{x:?} not reported\ngot {got:?}\nmust {must:?}\nmay {may:?}\n{}", ctx()));
    }
    if let Some(x) = got.iter().find(|x| !may.contains(x)) {
        return viol(format!("false {what}"), format!("{x:?} reported\ngot {got:?}\nmust {must:?}\nmay {may:?}\n{}", ctx()));
    }
    Ok(())
}

/// Select some fields once more below another type that has them: where definitions
/// of one field differ in price or page size, both are in play.
fn restate(t: &mut Tape, s: &Schema, d: &mut Doc) {
    fn go(t: &mut Tape, s: &Schema, on: &str, sels: &mut Vec<Sel>, left: &mut usize) {
        let mut more = vec![];
        for x in sels.iter_mut() {
            match x {
                Sel::Spread(..) => {}
                Sel::Inline(c, _, sub) => {
                    let c = c.clone().unwrap_or(on.to_string());
                    go(t, s, &c, sub, left)
                }
                Sel::Field(f) => {
                    let Some(def) = s.field(on, &f.name) else { continue };
                    let base = def.ty.base().to_string();
                    go(t, s, &base, &mut f.sels, left);
                    if *left == 0 || !t.chance(1, if f.name.starts_with("conn") { 2 } else { 4 }) {
                        continue;
                    }
                    let here = s.possible(on);
                    let same = |o: &FieldDef| {
                        o.ty == def.ty && f.args.iter().all(|(n, _)| {
                            let a = |d: &FieldDef| d.args.iter().find(|a| a.name == *n).map(|a| (a.ty.clone(), a.default.is_some()));
                            a(o).is_some() && a(o) == a(def)
                        }) && o.args.iter().all(|a| !a.required() || f.args.iter().any(|(n, _)| *n == a.name))
                    };
                    let others: Vec<String> = s.types.iter().filter(|o| o.name != on && o.is_composite()).map(|o| o.name.clone())
                        .filter(|o| s.possible(o).iter().any(|x| here.contains(x)) && s.field(o, &f.name).is_some_and(same)).collect();
                    if !others.is_empty() {
                        let o = others[t.pick(others.len())].clone();
                        more.push(Sel::Inline(Some(o), vec![], vec![Sel::Field(f.clone())]));
                        *left -= 1;
                    }
                }
            }
        }
        for m in more {
            let i = t.pick(sels.len() + 1);
            sels.insert(i, m);
        }
    }
    let mut left = 3;
    for x in &mut d.defs {
        match x {
            Def::Op(o) => {
                let root = s.root(o.kind).unwrap_or("").to_string();
                go(t, s, &root, &mut o.sels, &mut left)
            }
            Def::Frag(f) => {
                let on = f.on.clone();
                go(t, s, &on, &mut f.sels, &mut left)
            }
        }
    }
}

fn run(c: &mut Ctx) -> R {
    let connections = c.t.chance(3, 4);
    let mut s = gen_schema(&mut c.t, &SchemaCfg { connections, ..Default::default() });
    price(&mut c.t, &mut s);
    let ssrc = schema_src(&s, Style::Plain, &mut c.t);
    c.input(&ssrc);
    let full = s.with_introspection();
    let nd = c.t.range(1, 3);
    let docs: Vec<(Doc, String)> = (0..nd)
        .map(|_| {
            let introspection = c.t.chance(1, 4);
            let merge_heavy = c.t.chance(1, 3);
            let budget = c.t.range(5, 35);
            let mut d = gen_doc(&mut c.t, &s, &DocCfg { budget, max_depth: 5, max_sels: 3, introspection, merge_heavy, ..Default::default() });
            if c.t.chance(1, 3) {
                restate(&mut c.t, &full, &mut d);
            }
            let src = doc_src(&d, Style::Plain, &mut c.t);
            c.input(&src);
            (d, src)
        })
        .collect();
    // calls as they arrive
    let n = c.t.range(2, 4);
    let mut calls: Vec<(usize, usize, Option<String>, Vars, usize, bool)> = vec![];
    let mut prev: Option<String> = None;
    for _ in 0..c.t.range(n, 4 * n) {
        let who = c.t.pick(n);
        c.step(who, "call");
        if !calls.is_empty() && c.f(1, 6) {
            c.fault("call_repeated");
            let k = calls[c.t.pick(calls.len())].clone();
            calls.push(k);
            continue;
        }
        let k = c.t.pick(nd);
        let ops: Vec<&Op> = docs[k].0.ops().collect();
        let op = ops[c.t.pick(ops.len())];
        let mut vars = gen_vars(&mut c.t, &s, op);
        for v in &op.vars {
            // page sizes of all magnitudes
            if matches!(&v.ty, Ty::Named(b, _) if b == "Int") && c.t.chance(1, 2) {
                let n = *c.t.choose(&[0, 1, 2, 3, 5, 10, 100, 2147483647, -1, -2147483648i64]);
                vars.insert(v.name.clone(), serde_json::json!(n));
            }
        }
        if c.f(1, 3) && inflate(&mut c.t, &mut vars) {
            c.fault("list_inflated");
        }
        if c.f(1, 8) {
            spoil(&mut c.t, &s, &mut vars);
            c.fault("skewed_value");
        }
        let sent = serde_json::Value::Object(vars).to_string();
        let (got, _) = if c.f(1, 8) { transmit(c, &sent, prev.as_deref(), 2) } else { (sent.clone(), 0) };
        prev = Some(sent);
        c.input(&got);
        let Ok(serde_json::Value::Object(vars)) = serde_json::from_str(&got) else { continue };
        if !judge(&full, op, &vars).is_empty() {
            c.probe("refused");
            continue;
        }
        let lost = c.f(1, 4);
        if lost {
            c.fault("cache_lost");
        }
        calls.push((who, k, op.name.clone(), vars, c.t.pick(4), lost));
    }
    with_schema(&ssrc, |rs| {
        let parsed: Vec<RE<'_>> = docs.iter().map(|(_, src)| parse_valid(src)).collect::<R<Vec<_>>>()?;
        let caches: Vec<Cache<'_, RE<'_>, RS<'_>>> = parsed.iter().map(|e| Cache::new(e, rs)).collect();
        for (_, k, name, vars, max, lost) in &calls {
            let d = &docs[*k].0;
            let Ok(op) = resolve(d, name.as_deref()) else { continue };
            let m = |relay, tight| Meter { s: &full, doc: d, op, vars, relay, tight, memo: Default::default() };
            if m(false, true).undecided() || !small(d) {
                c.probe("undecided_condition");
                continue;
            }
            let ctx = || format!("operation {name:?} with {}\n{}\n{}", serde_json::to_string(vars).unwrap_or_default(), docs[*k].1, sdl(&s));
            let e = &parsed[*k];
            let got = if *lost {
                let cache = Cache::new(e, rs);
                meter_all(e, rs, &cache, name.as_deref(), vars, *max)
            } else {
                meter_all(e, rs, &caches[*k], name.as_deref(), vars, *max)
            };
            let Some((depth, plain, relay, long, dep)) = got else { return viol("operation resolution", ctx()) };
            c.eval();
            c.obs(&format!("{depth} {plain} {relay} {long:?} {dep:?}"));
            let want = m(false, true).depth();
            if want > 1 || !long.is_empty() {
                c.nontrivial = true;
            }
            ensure!(depth == want, "depth", "depth {depth}, reference {want}\n{}", ctx());
            for (r, got) in [(false, plain), (true, relay)] {
                let lo = m(r, true).cost();
                let hi = if got == lo { lo } else { m(r, false).cost() };
                if lo != hi {
                    c.probe("dead_conditions");
                }
                let key = if r { "relay cost" } else { "cost" };
                ensure!(lo <= got, format!("{key} too low"), "{key} {got}, an execution costs {lo}\n{}", ctx());
                ensure!(got <= hi, format!("{key} too high"), "{key} {got}, but no more than {hi} can be asked for\n{}", ctx());
            }
            if relay > 100 {
                c.probe("relay_cost_over_100");
            }
            if relay == usize::MAX {
                c.probe("relay_cost_saturated");
            }
            let (must, may) = m(false, true).long(*max);
            if !must.is_empty() {
                c.probe("long_lists");
            }
            between("list size", &long, &must, &may, &ctx)?;
            let (must, may) = m(false, true).deprecated();
            for u in &must {
                c.probe(u.0);
            }
            between("deprecation", &dep, &must, &may, &ctx)?;
        }
        Ok(())
    })
}
