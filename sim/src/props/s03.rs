//! S03: every answer of the service is a function of the request alone.
use super::Prop;
use crate::alloc::with_hash_seed;
use crate::ctx::{viol, Ctx, R};
use crate::gen::*;
use crate::model::*;
use crate::mutate::mutate;
use crate::sdlmut::*;
use crate::service::*;
use crate::tenant::{decorate, gen_tenant};
use crate::vars::*;

pub const PROP: Prop = Prop {
    id: "S03",
    run,
    known: &[],
    quick_secs: 40,
    thorough_secs: 600,
    min_secs: 40,
    rule: "A run builds a workload (schemas and documents of several versions, many with defects, variable values, tenants, 4-14 distinct requests of 12 kinds) and serves it from 2-4 process lives. The scheduler decides which life serves which request, in which order, against warm or cold caches; lives crash after any request and their queue moves to the next. Every life has its own hash keys and its own heap layout. Every request is served by at least two lives. Non-trivial: at least one request was answered twice by different lives.",
    real: "bluejay-parser, bluejay-core, bluejay-validator, bluejay-printer, bluejay-schema-comparator, bluejay-visibility",
    stub: "process lives (threads with controlled hash keys and heap), load balancer, clients",
    assumptions: "hash keys and heap addresses are the process-level sources of nondeterminism; both are behind simulator seams",
};

pub fn workload(c: &mut Ctx) -> (Service, Vec<Req>) {
    let mut s = gen_schema(&mut c.t, &SchemaCfg { descs: true, connections: true, ..Default::default() });
    decorate(&mut c.t, &mut s, false);
    let mut schemas = vec![schema_plain(&s)];
    for _ in 0..c.t.range(1, 2) {
        let mut d = sdl_of(&s);
        for _ in 0..c.t.range(1, 5) {
            damage(&mut c.t, &mut d);
            c.fault("schema_defect");
        }
        schemas.push(render(&d, Some(&mut c.t)));
    }
    // a later version of the schema
    let mut s2 = gen_schema(&mut c.t, &SchemaCfg { descs: true, ..Default::default() });
    for t in &s.types {
        if c.t.chance(1, 2) && s2.ty(&t.name).is_none() && t.is_enum() {
            s2.types.push(t.clone());
        }
    }
    schemas.push(schema_plain(&s2));
    let tenants = (0..2).map(|_| gen_tenant(&mut c.t, &s)).collect();
    let mut docs = vec![];
    let mut vars = vec![];
    let mut names = vec![];
    for _ in 0..c.t.range(1, 3) {
        let merge_heavy = c.t.chance(1, 2);
        let mut d = gen_doc(&mut c.t, &s, &DocCfg { merge_heavy, budget: 30, max_depth: 4, ..Default::default() });
        let ops: Vec<Op> = d.ops().cloned().collect();
        let (mut v, mut name) = (Vars::new(), None);
        if !ops.is_empty() {
            let op = &ops[c.t.pick(ops.len())];
            v = gen_vars(&mut c.t, &s, op);
            for _ in 0..c.t.pick(6) {
                spoil(&mut c.t, &s, &mut v);
            }
            name = op.name.clone();
        }
        let n = if c.faults_on && c.t.chance(2, 3) { c.t.pick(6) } else { 0 };
        for _ in 0..n {
            mutate(&mut c.t, &s, &mut d);
            c.fault("client_version_skew");
        }
        let mut src = doc_plain(&d);
        if c.f(1, 6) {
            src = crate::net::transmit(c, &src, None, 2).0;
        }
        c.input(&src);
        docs.push(src);
        vars.push(v);
        names.push(name);
    }
    for s in &schemas {
        c.input(s);
    }
    let w = Service { schemas, docs, vars, tenants };
    let mut reqs: Vec<Req> = vec![];
    for _ in 0..c.t.range(4, 14) {
        let d = c.t.pick(w.docs.len());
        let si = if c.t.chance(2, 3) { 0 } else { c.t.pick(w.schemas.len()) };
        let t = c.t.pick(2);
        let r = match c.t.pick(16) {
            0 => Req::Parse(d),
            1 => Req::Sdl(c.t.pick(w.schemas.len())),
            2 => Req::Rules(c.t.pick(w.schemas.len())),
            3 | 4 | 5 => Req::Validate(d, si),
            6 | 7 => Req::Admit(d, si, names[d].clone(), d),
            8 | 9 => Req::Analyze(d, si, names[d].clone(), d),
            10 => Req::PrintDoc(d),
            11 => Req::PrintSchema(si),
            12 => Req::Compare(0, c.t.pick(w.schemas.len())),
            13 => Req::View(si, t),
            14 => Req::ViewValidate(d, si, t),
            _ => Req::Directives(si),
        };
        if !reqs.contains(&r) {
            reqs.push(r);
        }
    }
    (w, reqs)
}

fn run(c: &mut Ctx) -> R {
    let (w, reqs) = workload(c);
    // who serves what: every request is queued for at least two lives
    let lives = c.t.range(2, 4);
    let mut queues: Vec<Vec<(usize, bool)>> = vec![vec![]; lives];
    for r in 0..reqs.len() {
        let a = c.t.pick(lives);
        let b = (a + 1 + c.t.pick(lives - 1)) % lives;
        for l in [a, b] {
            for _ in 0..c.t.range(1, 2) {
                let cold = c.t.chance(1, 3);
                queues[l].push((r, cold));
            }
        }
    }
    for l in 0..lives {
        c.t.shuffle(&mut queues[l]);
    }
    // crashes: a life serves a prefix; the rest goes to a fresh life
    let mut plans: Vec<Vec<(usize, bool)>> = vec![];
    for q in queues {
        if q.len() > 1 && c.f(1, 3) {
            let k = c.t.range(1, q.len() - 1);
            c.fault("crash_restart");
            plans.push(q[..k].to_vec());
            plans.push(q[k..].to_vec());
        } else {
            plans.push(q);
        }
    }
    let mut first: Vec<Option<(usize, String)>> = vec![None; reqs.len()];
    for (l, plan) in plans.iter().enumerate() {
        let seed = c.t.raw() as u64;
        let (w, reqs) = (&w, &reqs);
        let got = match crate::runner::guard(|| with_hash_seed(seed, || life(w, reqs, plan))) {
            Ok(g) => g,
            Err(v) => return Err(v),
        };
        for ((r, cold), a) in plan.iter().zip(got) {
            c.step(l, reqs[*r].name());
            c.obs(&a);
            match &first[*r] {
                None => first[*r] = Some((l, a)),
                Some((l0, b)) => {
                    c.eval();
                    if *l0 != l {
                        c.nontrivial = true;
                    }
                    if *b != a {
                        return viol(format!("{} differs", reqs[*r].name()), format!("request {:?} answered by life {l0}:\n{b}\nand by life {l} (cold {cold}):\n{a}\n{:?}\n{:?}", reqs[*r], w.schemas, w.docs));
                    }
                }
            }
        }
    }
    Ok(())
}
