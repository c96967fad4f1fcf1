//! S06: what the gateway accepts can be executed, and what is written by the book is accepted.
use super::s08::admit;
use super::Prop;
use crate::ctx::{viol, Ctx, R};
use crate::ensure;
use crate::gen::*;
use crate::model::*;
use crate::mutate::mutate;
use crate::net::transmit;
use crate::refexec::Exec;
use crate::refparse;
use crate::vars::*;
use crate::world::*;

pub const PROP: Prop = Prop {
    id: "S06",
    run,
    known: &[],
    quick_secs: 40,
    thorough_secs: 600,
    min_secs: 40,
    rule: "A run interleaves 2-4 clients against a gateway in front of an executing server. Clients with version skew send documents with 0-2 semantic edits and variable values with 0-2 damages through a faulty transport. Every operation of every document the gateway accepts, with every set of values it admits, is executed 2-4 times by the reference executor over random data (run-time types, nulls, list lengths chosen by the scheduler). Non-trivial: at least one accepted operation was executed.",
    real: "bluejay-parser, bluejay-validator (all built-in rules, operation analyzers), bluejay-core",
    stub: "transport, clients, executing server (reference executor over random data)",
    assumptions: "an explicit null for a nullable variable where a default stands in, and nullable variables in oneOf objects, fail at run time by specification; two selections on an operation's introspection are executed against the introspection types' definitions",
};

fn run(c: &mut Ctx) -> R {
    let plain = gen_schema(&mut c.t, &SchemaCfg::default());
    let src = schema_src(&plain, Style::Noisy, &mut c.t);
    c.input(&src);
    let full = plain.with_introspection();
    with_schema(&src, |rs| {
        let n = c.t.range(2, 4);
        let mut prev: Option<String> = None;
        for _ in 0..c.t.range(n, 3 * n) {
            let who = c.t.pick(n);
            c.step(who, "request");
            let merge_heavy = c.t.chance(1, 2);
            let introspection = c.t.chance(1, 6);
            let mut d = gen_doc(&mut c.t, &plain, &DocCfg { merge_heavy, introspection, budget: 30, max_depth: 4, ..Default::default() });
            let edits = if c.faults_on { c.t.pick(3) } else { 0 };
            for _ in 0..edits {
                mutate(&mut c.t, &full, &mut d);
                c.fault("client_version_skew");
            }
            let sent = doc_src(&d, Style::Noisy, &mut c.t);
            let (got, faults) = if c.f(1, 6) { transmit(c, &sent, prev.as_deref(), 1) } else { (sent.clone(), 0) };
            prev = Some(sent);
            c.input(&got);
            let Ok(d) = refparse::parse(&got) else { continue };
            let e = parse_valid(&got)?;
            c.eval();
            let v = verdict(&got, &e, rs);
            c.obs(&format!("{v:?}"));
            if edits == 0 && faults == 0 {
                ensure!(v.is_empty(), format!("rejected {}", v[0].0), "document written by the book rejected: {v:?}\n{}\n{}", sdl(&plain), gql(&d));
            }
            if !v.is_empty() {
                c.probe("rejected");
                continue;
            }
            for op in d.ops() {
                if op.vars.iter().any(|v| !full.is_input_ty(v.ty.base())) {
                    return viol("executed: variable of no input type", gql(&d));
                }
                let mut vars = gen_vars(&mut c.t, &full, op);
                let mut clean = true;
                if c.f(1, 2) {
                    for _ in 0..c.t.range(1, 2) {
                        spoil(&mut c.t, &full, &mut vars);
                        c.fault("skewed_value");
                        clean = false;
                    }
                }
                let ok = admit(&e, rs, op.name.as_deref(), &vars);
                if clean {
                    ensure!(ok == Ok(vec![]), "values refused", "{ok:?} {vars:?}\n{}\n{}", sdl(&plain), gql(&d));
                }
                if ok != Ok(vec![]) {
                    continue;
                }
                let mut x = Exec { s: &full, doc: &d, op, vars: &vars, shapes: Default::default(), fields: 0, budget: 300 };
                for _ in 0..c.t.range(2, 4) {
                    c.eval();
                    c.nontrivial = true;
                    if let Err((k, m)) = x.run(&mut c.t) {
                        return viol(format!("executed: {k}"), format!("accepted, but execution stops: {k}: {m}\nvalues {}\n{}\n{}", serde_json::to_string(&vars).unwrap_or_default(), sdl(&plain), gql(&d)));
                    }
                }
                c.probe("executed");
                if edits > 0 || faults > 0 {
                    c.probe("executed_despite_faults");
                }
                c.obs(&format!("{:?}", x.fields));
            }
        }
        Ok(())
    })
}
