//! S14: whatever the comparator lets through as not breaking can be rolled out under live traffic.
use super::s08::admit;
use super::s13::model;
use super::Prop;
use crate::ctx::{viol, Ctx, R};
use crate::ensure;
use crate::evolve::edit;
use crate::gen::*;
use crate::model::*;
use crate::mutate::mutate;
use crate::refdiff::Diff;
use crate::refexec::Exec;
use crate::refparse;
use crate::vars::*;
use crate::world::*;
use bluejay_schema_comparator::compare;

pub const PROP: Prop = Prop {
    id: "S14",
    run,
    known: &[],
    quick_secs: 40,
    thorough_secs: 600,
    min_secs: 40,
    rule: "2-4 replicas serve a schema that is released again and again: candidates (1-3 random edits, or a rollback to an earlier release) pass a gate that refuses what the comparator reports as breaking, and reach the replicas one by one, late, twice, in any order, with replicas that crash before or after the release is on their disk. Clients keep sending the documents and values they were built with, against any release they saw, to any replica. Non-trivial: a request met a release it was not built for and that the gate holds compatible.",
    real: "bluejay-schema-comparator (gate), bluejay-parser, bluejay-validator (all rules, VariableValuesAreValid), bluejay-core",
    stub: "teams, release pipeline, replicas, clients, executor (reference, over random data)",
    assumptions: "the gate also refuses the differences that are known findings of S13 (root operation types, repeatable). Fields that a document merges may conflict when one of them becomes non-null (the comparator's tests pin such changes as safe): a rejection that consists of incompatible types of merged fields is not judged.",
};

struct Release {
    schema: Schema,
    text: String,
}
struct Replica {
    disk: usize,
    up: usize,
    inbox: Vec<usize>,
}
struct Client {
    built: usize,
    doc: Doc,
    text: String,
    vars: Vec<Vars>,
}

/// may requests for `a` be sent to `b`?
fn gate(c: &mut Ctx, a: &str, b: &str) -> R<bool> {
    let (x, y) = (model(a)?, model(b)?);
    if Diff::of(&x, &y).silent.iter().any(|s| s.starts_with("root") || s.starts_with("repeatable")) {
        c.probe("gate_known_finding");
        return Ok(false);
    }
    with_schema(a, |x| {
        with_schema(b, |y| {
            let r = compare(x, y);
            let breaking = r.changes.iter().filter(|c| c.breaking()).count();
            for ch in &r.changes {
                if breaking == 0 && ch.dangerous() {
                    c.probe("dangerous_change_released");
                }
            }
            if breaking == 0 {
                for ch in &r.changes {
                    c.obs(AsRef::<str>::as_ref(ch));
                }
            }
            Ok(breaking == 0)
        })
    })
}

fn accepted(e: &str, s: &str) -> R<Vec<(&'static str, String)>> {
    let p = parse_valid(e)?;
    with_schema(s, |rs| Ok(verdict(e, &p, rs)))
}

/// a type as `Ty::show` writes it
fn ty(s: &str) -> Ty {
    let (s, r) = match s.strip_suffix('!') {
        Some(x) => (x, true),
        None => (s, false),
    };
    match s.strip_prefix('[').and_then(|x| x.strip_suffix(']')) {
        Some(i) => Ty::List(Box::new(ty(i)), r),
        None => Ty::Named(s.to_string(), r),
    }
}
/// can code written for `o` read `n`?
fn readable(o: &Ty, n: &Ty) -> bool {
    (!o.required() || n.required())
        && match (o, n) {
            (Ty::Named(a, _), Ty::Named(b, _)) => a == b,
            (Ty::List(a, _), Ty::List(b, _)) => readable(a, b),
            _ => false,
        }
}

fn call(c: &mut Ctx, rel: &[Release], k: usize, cl: &Client) -> R {
    let (old, new) = (&rel[cl.built], &rel[k]);
    c.eval();
    let (e, ok) = (parse_valid(&cl.text)?, cl.vars.clone());
    let full = new.schema.with_introspection();
    let before = old.schema.with_introspection();
    let show = |c: &Ctx| {
        let _ = c;
        format!("built for\n{}\nserved by\n{}\nrequest\n{}", sdl(&old.schema), sdl(&new.schema), gql(&cl.doc))
    };
    with_schema(&new.text, |rs| {
        let v = verdict(&cl.text, &e, rs);
        c.obs(&format!("{}", v.len()));
        if !v.is_empty() {
            if v.iter().all(|x| x.0 == "MergeTypes") {
                c.probe("merge_conflict_not_judged");
                return Ok(());
            }
            return viol(format!("released, but refuses requests: {}", v[0].0), format!("{v:?}\n{}", show(c)));
        }
        for (op, vars) in cl.doc.ops().zip(&ok) {
            let a = admit(&e, rs, op.name.as_deref(), vars);
            ensure!(a == Ok(vec![]), "released, but refuses values", "{a:?} {vars:?}\n{}", show(c));
            c.probe("values_admitted");
            let mut x = Exec { s: &full, doc: &cl.doc, op, vars, shapes: Default::default(), fields: 0, budget: 200 };
            if let Err((k, m)) = x.run(&mut c.t) {
                return viol(format!("released, but execution stops: {k}"), format!("{m}\n{}", show(c)));
            }
            let now = x.shapes;
            let mut x = Exec { s: &before, doc: &cl.doc, op, vars, shapes: Default::default(), fields: 0, budget: 200 };
            if let Err((k, m)) = x.run(&mut c.t) {
                return viol(format!("harness: {k}"), format!("{m}\n{}", show(c)));
            }
            for (at, o) in &x.shapes {
                if let Some(n) = now.get(at) {
                    ensure!(readable(&ty(o), &ty(n)), "released, but responses do not fit", "{at}: {o} became {n}\n{}", show(c));
                }
            }
        }
        Ok(())
    })
}

fn run(c: &mut Ctx) -> R {
    let cfg = SchemaCfg { schema_dirs: true, max_types: 7, ..Default::default() };
    let first = gen_schema(&mut c.t, &cfg);
    let text = schema_src(&first, Style::Plain, &mut c.t);
    c.input(&text);
    let mut rel = vec![Release { schema: first, text }];
    let n = c.t.range(2, 4);
    let mut reps: Vec<Replica> = (0..n).map(|_| Replica { disk: 0, up: 0, inbox: vec![] }).collect();
    let mut clients: Vec<Client> = vec![];
    for _ in 0..c.t.range(8, 28) {
        match c.t.pick(10) {
            0..=2 => {
                c.step(n, "candidate");
                let cur = rel.len() - 1;
                let (s, t) = if c.f(1, 8) {
                    c.fault("rollback");
                    let k = c.t.pick(rel.len());
                    (rel[k].schema.clone(), rel[k].text.clone())
                } else {
                    let mut s = rel[cur].schema.clone();
                    for _ in 0..c.t.range(1, 3) {
                        if let Some(w) = edit(&mut c.t, &mut s) {
                            c.probe(w);
                        }
                    }
                    let t = schema_src(&s, Style::Plain, &mut c.t);
                    (s, t)
                };
                c.input(&t);
                if gate(c, &rel[cur].text, &t)? {
                    c.probe("released");
                    rel.push(Release { schema: s, text: t });
                    reps.iter_mut().for_each(|r| r.inbox.push(rel.len() - 1));
                } else {
                    c.probe("refused_by_gate");
                }
            }
            3 | 4 => {
                let i = c.t.pick(n);
                let r = &mut reps[i];
                if r.inbox.is_empty() {
                    continue;
                }
                c.step(i, "install");
                let k = if c.f(1, 4) {
                    c.fault("release_out_of_order");
                    c.t.pick(r.inbox.len())
                } else {
                    0
                };
                let v = r.inbox[k];
                if c.f(1, 5) {
                    c.fault("release_duplicated");
                } else {
                    r.inbox.remove(k);
                }
                if c.f(1, 5) {
                    // the release is on the disk or not, and the process is gone either way
                    c.fault("replica_crash_in_install");
                    if c.t.chance(1, 2) {
                        r.disk = v;
                    }
                    r.up = r.disk;
                } else {
                    r.disk = v;
                    r.up = v;
                }
            }
            5 | 6 => {
                // a client is built against the release that some replica serves
                let i = c.t.pick(n);
                c.step(i, "build_client");
                let k = reps[i].up;
                let s = &rel[k].schema;
                let merge_heavy = c.t.chance(1, 3);
                let mut doc = gen_doc(&mut c.t, s, &DocCfg { merge_heavy, budget: 30, max_depth: 4, ..Default::default() });
                if c.t.chance(1, 3) {
                    let full = s.with_introspection();
                    for _ in 0..c.t.range(1, 2) {
                        mutate(&mut c.t, &full, &mut doc);
                    }
                }
                let text = doc_src(&doc, Style::Plain, &mut c.t);
                let Ok(doc) = refparse::parse(&text) else { continue };
                if !accepted(&text, &rel[k].text)?.is_empty() {
                    continue;
                }
                c.input(&text);
                let full = s.with_introspection();
                let vars: Vec<Vars> = doc.ops().map(|o| gen_vars(&mut c.t, &full, o)).collect();
                clients.push(Client { built: k, doc, text, vars });
            }
            7 if c.faults_on => {
                let i = c.t.pick(n);
                c.step(i, "crash");
                c.fault("replica_crash_restart");
                reps[i].up = reps[i].disk;
            }
            _ if !clients.is_empty() => {
                let i = c.t.pick(n);
                let cl = &clients[c.t.pick(clients.len())];
                c.step(i, "request");
                let k = reps[i].up;
                // forward along the releases every step has passed the gate; backward it is asked
                if k < cl.built {
                    c.probe("replica_behind_client");
                    if !gate(c, &rel[cl.built].text, &rel[k].text)? {
                        continue;
                    }
                    c.probe("replica_behind_client_compatible");
                }
                if k != cl.built {
                    c.nontrivial = true;
                    c.probe("request_across_releases");
                }
                let seed = c.hash_seed ^ i as u64;
                crate::alloc::with_hash_seed(seed, || call(c, &rel, k, cl))?;
            }
            _ => {}
        }
    }
    // the pipeline catches up, and everyone is served by everyone
    let last = rel.len() - 1;
    for cl in &clients {
        c.nontrivial |= cl.built != last;
        call(c, &rel, last, cl)?;
    }
    Ok(())
}
