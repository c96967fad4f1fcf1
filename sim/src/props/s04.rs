//! S04: the verdict on a document belongs to its meaning, not to how it is written.
use super::Prop;
use crate::ctx::{viol, Ctx, R};
use crate::ensure;
use crate::gen::*;
use crate::model::*;
use crate::mutate::mutate;
use crate::tape::Tape;
use crate::vars::*;
use crate::world::*;
use bluejay_validator::executable::operation::analyzers::complexity_cost::RelayCostComputer;
use bluejay_validator::executable::operation::{analyzers::*, Orchestrator};
use bluejay_validator::executable::Cache;
use std::collections::BTreeSet;

pub const PROP: Prop = Prop {
    id: "S04",
    run,
    known: &[],
    quick_secs: 40,
    thorough_secs: 600,
    min_secs: 40,
    rule: "A run sends documents of 2-3 clients (half of them with 1-3 semantic edits of version skew) along a route of 1-5 proxies to several gateways. Each proxy rewrites what it forwards: reorders definitions, selections, arguments, object fields or directives, renames fragments, variables, operations or response keys throughout, repeats selections, wraps selections, inlines or extracts fragments, drops other operations, reformats; each gateway's own copy of the schema is reordered and carries unrelated types. Every hop is judged by a gateway. Non-trivial: at least one document was judged before and after a proxy.",
    real: "bluejay-parser, bluejay-validator (built-in rules, cache, cost and depth analyzers)",
    stub: "clients, proxies, gateways' loop",
    assumptions: "which of two equally named fragments, variables or arguments is meant is not defined: such documents are only compared in the classes that report the duplicate; of merge conflicts only the presence is compared",
};

type V = BTreeSet<&'static str>;

fn vals(v: &mut Val, f: &mut dyn FnMut(&mut Val)) {
    f(v);
    match v {
        Val::List(l) => l.iter_mut().for_each(|x| vals(x, f)),
        Val::Obj(l) => l.iter_mut().for_each(|x| vals(&mut x.1, f)),
        _ => {}
    }
}
fn each_dirs(d: &mut Doc, f: &mut dyn FnMut(&mut Dirs)) {
    fn sels(s: &mut [Sel], f: &mut dyn FnMut(&mut Dirs)) {
        for x in s {
            match x {
                Sel::Field(x) => {
                    f(&mut x.dirs);
                    sels(&mut x.sels, f)
                }
                Sel::Spread(_, d) => f(d),
                Sel::Inline(_, d, x) => {
                    f(d);
                    sels(x, f)
                }
            }
        }
    }
    for x in &mut d.defs {
        match x {
            Def::Op(o) => {
                f(&mut o.dirs);
                o.vars.iter_mut().for_each(|v| f(&mut v.dirs));
                sels(&mut o.sels, f)
            }
            Def::Frag(o) => {
                f(&mut o.dirs);
                sels(&mut o.sels, f)
            }
        }
    }
}
fn each_sel(d: &mut Doc, f: &mut dyn FnMut(&mut Sel)) {
    fn sels(s: &mut [Sel], f: &mut dyn FnMut(&mut Sel)) {
        for x in s {
            f(x);
            match x {
                Sel::Field(x) => sels(&mut x.sels, f),
                Sel::Spread(..) => {}
                Sel::Inline(_, _, x) => sels(x, f),
            }
        }
    }
    for x in &mut d.defs {
        match x {
            Def::Op(o) => sels(&mut o.sels, f),
            Def::Frag(o) => sels(&mut o.sels, f),
        }
    }
}
/// every argument list
fn each_args(d: &mut Doc, f: &mut dyn FnMut(&mut Vec<(String, Val)>)) {
    each_dirs(d, &mut |ds| ds.iter_mut().for_each(|x| f(&mut x.args)));
    each_sel(d, &mut |s| {
        if let Sel::Field(x) = s {
            f(&mut x.args)
        }
    });
}

/// One rewriting proxy. `accepted`: the document is known to be valid.
fn rewrite(t: &mut Tape, s: &Schema, d: &mut Doc, accepted: bool) -> &'static str {
    let n = if accepted { 14 } else { 11 };
    match t.pick(n) {
        0 => {
            t.shuffle(&mut d.defs);
            "definitions reordered"
        }
        1 => {
            d.each_list(&mut |l| t.shuffle(l));
            "selections reordered"
        }
        2 => {
            each_args(d, &mut |a| t.shuffle(a));
            "arguments reordered"
        }
        3 => {
            each_args(d, &mut |a| {
                a.iter_mut().for_each(|x| {
                    vals(&mut x.1, &mut |v| {
                        if let Val::Obj(o) = v {
                            t.shuffle(o)
                        }
                    })
                })
            });
            "object fields reordered"
        }
        4 => {
            each_dirs(d, &mut |x| t.shuffle(x));
            for x in &mut d.defs {
                if let Def::Op(o) = x {
                    t.shuffle(&mut o.vars);
                }
            }
            "directives and variables reordered"
        }
        5 => {
            let r = |n: &mut String| *n = format!("F_{n}");
            each_sel(d, &mut |s| {
                if let Sel::Spread(n, _) = s {
                    r(n)
                }
            });
            for x in &mut d.defs {
                if let Def::Frag(f) = x {
                    r(&mut f.name)
                }
            }
            "fragments renamed"
        }
        6 => {
            each_args(d, &mut |a| {
                a.iter_mut().for_each(|x| {
                    vals(&mut x.1, &mut |v| {
                        if let Val::Var(n) = v {
                            *n = format!("w_{n}")
                        }
                    })
                })
            });
            for x in &mut d.defs {
                if let Def::Op(o) = x {
                    o.vars.iter_mut().for_each(|v| v.name = format!("w_{}", v.name));
                }
            }
            "variables renamed"
        }
        7 => {
            for x in &mut d.defs {
                if let Def::Op(Op { name: Some(n), .. }) = x {
                    *n = format!("O_{n}");
                }
            }
            "operations renamed"
        }
        8 => {
            each_sel(d, &mut |s| {
                if let Sel::Field(f) = s {
                    f.alias = Some(format!("{}_k", f.key()));
                }
            });
            "response keys renamed"
        }
        9 => {
            for _ in 0..t.range(1, 3) {
                let (c, from, to) = (t.pick(1 << 16), t.pick(1 << 16), t.pick(1 << 16));
                d.one_list(&mut |n| c % n, &mut |l| {
                    if !l.is_empty() {
                        let x = l[from % l.len()].clone();
                        l.insert(to % (l.len() + 1), x);
                    }
                });
            }
            "selection repeated"
        }
        10 => {
            let (c, from, to) = (t.pick(1 << 16), t.pick(1 << 16), t.pick(1 << 16));
            d.one_list(&mut |n| c % n, &mut |l| {
                if !l.is_empty() {
                    let a = from % l.len();
                    let b = a + 1 + to % (l.len() - a);
                    let part: Vec<Sel> = l.drain(a..b).collect();
                    l.insert(a, Sel::Inline(None, vec![], part));
                }
            });
            "selections wrapped"
        }
        11 => {
            let frags: Vec<Frag> = d.frags().filter(|f| f.dirs.is_empty()).cloned().collect();
            each_sel(d, &mut |s| {
                if let Sel::Spread(n, ds) = s {
                    if ds.is_empty() && t.chance(1, 2) {
                        if let Some(f) = frags.iter().find(|f| f.name == *n) {
                            *s = Sel::Inline(Some(f.on.clone()), vec![], f.sels.clone());
                        }
                    }
                }
            });
            let used = used_frags(d);
            d.defs.retain(|x| !matches!(x, Def::Frag(f) if !used.contains(&f.name)));
            // variables used by directives of fragments that are gone
            let used: Vec<Vec<String>> = d.ops().map(|o| op_used_vars(d, o)).collect();
            let mut used = used.into_iter();
            for x in &mut d.defs {
                if let Def::Op(o) = x {
                    let u = used.next().unwrap_or_default();
                    o.vars.retain(|v| u.contains(&v.name));
                }
            }
            "fragments inlined"
        }
        12 => {
            let mut new = vec![];
            let all: Vec<String> = d.frags().map(|f| f.name.clone()).collect();
            let taken = (0..).find(|i| !all.iter().any(|n| n.starts_with(&format!("X{i}")))).unwrap_or(0);
            let taken = format!("{taken}_");
            for x in &mut d.defs {
                if let Def::Op(o) = x {
                    if let (Some(root), true) = (s.root(o.kind), t.chance(1, 2)) {
                        let name = format!("X{taken}{}_{}", new.len(), o.name.clone().unwrap_or_default());
                        new.push(Def::Frag(Frag { name: name.clone(), on: root.to_string(), dirs: vec![], sels: std::mem::replace(&mut o.sels, vec![Sel::Spread(name, vec![])]) }));
                    }
                }
            }
            d.defs.extend(new);
            "root selections extracted"
        }
        _ => {
            let ops: Vec<Op> = d.ops().cloned().collect();
            let keep = ops[t.pick(ops.len())].clone();
            d.defs.retain(|x| !matches!(x, Def::Op(o) if *o != keep));
            let used = used_frags(d);
            d.defs.retain(|x| !matches!(x, Def::Frag(f) if !used.contains(&f.name)));
            "other operations dropped"
        }
    }
}

fn reorder_schema(t: &mut Tape, s: &Schema) -> Schema {
    let mut s = s.clone();
    t.shuffle(&mut s.types);
    t.shuffle(&mut s.directives);
    for td in &mut s.types {
        match &mut td.kind {
            Kind::Enum(v) => t.shuffle(v),
            Kind::Input(v) => t.shuffle(v),
            Kind::Interface(i, f) | Kind::Object(i, f) => {
                t.shuffle(i);
                t.shuffle(f);
                f.iter_mut().for_each(|f| t.shuffle(&mut f.args));
            }
            Kind::Union(m) => t.shuffle(m),
            Kind::Scalar => {}
        }
    }
    // types nobody refers to
    for i in 0..t.pick(3) {
        let f = FieldDef { name: "a".into(), desc: None, args: vec![], ty: Ty::named("Int"), dirs: vec![] };
        let kind = match t.pick(3) {
            0 => Kind::Object(vec![], vec![f]),
            1 => Kind::Interface(vec![], vec![f]),
            _ => Kind::Scalar,
        };
        let at = t.pick(s.types.len() + 1);
        s.types.insert(at, TypeDef { name: format!("Unrelated{i}"), desc: None, dirs: vec![], kind });
    }
    s
}

fn norm(v: &[(&'static str, String)]) -> V {
    v.iter().map(|x| if x.0.starts_with("Merge") { "Merge" } else { x.0 }).collect()
}

fn meters<S: bluejay_core::definition::SchemaDefinition>(e: &RE<'_>, s: &S, n: Option<&str>, v: &Vars) -> Option<(usize, usize, usize)> {
    let cache = Cache::new(e, s);
    fn go<'a, S: bluejay_core::definition::SchemaDefinition>(e: &'a RE<'a>, s: &'a S, cache: &'a Cache<'a, RE<'a>, S>, n: Option<&str>, v: &'a Vars) -> Option<(usize, usize, usize)> {
        Some((
            Orchestrator::<_, _, _, QueryDepth>::analyze(e, s, n, v, cache, ()).ok()?,
            Orchestrator::<_, _, _, ComplexityCost<_, _, _>>::analyze(e, s, n, v, cache, ()).ok()?,
            Orchestrator::<_, _, _, ComplexityCost<_, _, _, RelayCostComputer<_, _, _>>>::analyze(e, s, n, v, cache, ()).ok()?,
        ))
    }
    go(e, s, &cache, n, v)
}

fn run(c: &mut Ctx) -> R {
    let connections = c.t.chance(1, 2);
    let mut s = gen_schema(&mut c.t, &SchemaCfg { connections, ..Default::default() });
    if connections {
        crate::meter::price(&mut c.t, &mut s);
    }
    let gates: Vec<String> = (0..c.t.range(2, 3)).map(|_| schema_plain(&reorder_schema(&mut c.t, &s))).collect();
    for g in &gates {
        c.input(g);
    }
    let n = c.t.range(2, 3);
    for _ in 0..c.t.range(n, 2 * n) {
        let who = c.t.pick(n);
        c.step(who, "request");
        let merge_heavy = c.t.chance(1, 3);
        let mut d = gen_doc(&mut c.t, &s, &DocCfg { merge_heavy, budget: 25, max_depth: 4, ..Default::default() });
        let vars: Vec<Vars> = d.ops().cloned().collect::<Vec<_>>().iter().map(|o| gen_vars(&mut c.t, &s, o)).collect();
        let mut vars: Vec<(Option<String>, Vars)> = d.ops().map(|o| o.name.clone()).zip(vars).collect();
        let edits = if c.f(1, 2) { c.t.range(1, 3) } else { 0 };
        for _ in 0..edits {
            mutate(&mut c.t, &s, &mut d);
            c.fault("client_version_skew");
        }
        let mut before: Option<(V, Vec<(Option<String>, Option<(usize, usize, usize)>)>, String)> = None;
        let mut how = "sent";
        let mut route = vec![];
        for hop in 0..c.t.range(2, 6) {
            if hop > 0 {
                let was: Option<&(V, _, _)> = before.as_ref();
                let accepted = was.is_some_and(|b| b.0.is_empty());
                how = rewrite(&mut c.t, &s, &mut d, accepted);
                c.fault("rewritten");
                c.step(n + hop, how);
                if how == "variables renamed" {
                    for (_, v) in &mut vars {
                        *v = v.iter().map(|(k, x)| (format!("w_{k}"), x.clone())).collect();
                    }
                }
                if how == "operations renamed" {
                    for (n, _) in &mut vars {
                        *n = n.as_ref().map(|n| format!("O_{n}"));
                    }
                }
                if how == "other operations dropped" {
                    vars.retain(|(n, _)| d.ops().any(|o| o.name == *n));
                }
                route.push(how);
            }
            let style = if c.t.chance(1, 2) { Style::Plain } else { Style::Noisy };
            let src = doc_src(&d, style, &mut c.t);
            c.input(&src);
            let g = c.t.pick(gates.len());
            let out = with_schema(&gates[g], |rs| {
                let e = match parse_valid(&src) {
                    Ok(e) => e,
                    // an edit may leave a variable where none may be
                    Err(_) if before.is_none() && edits > 0 => return Ok(None),
                    Err(v) => return Err(v),
                };
                let got = norm(&verdict(&src, &e, rs));
                let m = if got.is_empty() && edits == 0 { vars.iter().map(|(n, v)| (n.clone(), meters(&e, rs, n.as_deref(), v))).collect() } else { vec![] };
                Ok(Some((got, m)))
            })?;
            let Some((got, meter)) = out else { break };
            c.eval();
            c.obs(&format!("{got:?} {meter:?}"));
            if let Some((b, bm, bsrc)) = &before {
                c.nontrivial = true;
                let vague = |v: &V| v.contains("FragNameUniq");
                if vague(b) || vague(&got) {
                    ensure!(vague(b) == vague(&got), "FragNameUniq", "{how}: {b:?} then {got:?}\n{bsrc}\n{src}");
                } else {
                    // classes whose verdict depends on an undefined choice
                    let mut skip: Vec<&str> = vec![];
                    if b.contains("VarUniq") {
                        skip.extend(["VarUsage", "Value", "VarUnused", "VarUndefined"]);
                    }
                    if b.contains("ArgUniq") || b.contains("FragCycle") || d.has_repeated_keys() {
                        skip.push("Merge");
                    }
                    if let Some(x) = b.symmetric_difference(&got).find(|x| !skip.contains(x)) {
                        return viol(format!("{how}: {x}"), format!("{how} changed the verdict from {b:?} to {got:?} (route {route:?})\n{}\nbefore:\n{bsrc}\nafter:\n{}", gates[g], gql(&d)));
                    }
                    let empty = bm.is_empty() || meter.is_empty();
                    for (i, (nm, m)) in meter.iter().enumerate().filter(|_| !empty) {
                        let old = if how == "other operations dropped" { bm.iter().find(|x| x.0 == *nm).map(|x| x.1) } else { bm.get(i).map(|x| x.1) };
                        if let Some(old) = old {
                            ensure!(old == *m, format!("{how}: meter"), "{how} changed (depth, cost, relay cost) from {old:?} to {m:?} (route {route:?})\n{}\nbefore:\n{bsrc}\nafter:\n{}", gates[g], gql(&d));
                            c.probe("metered");
                        }
                    }
                }
                if b.is_empty() {
                    c.probe("accepted");
                } else {
                    c.probe("rejected");
                }
            }
            before = Some((got, meter, gql(&d)));
        }
    }
    Ok(())
}
