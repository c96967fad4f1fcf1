//! S17: whatever is sent, every request is answered, within bounds, and nobody else notices.
use super::Prop;
use bluejay_core::definition::{SchemaDefinition, TypeDefinitionReference};
use bluejay_core::executable::ExecutableDocument;
use bluejay_validator::executable::operation as oper;
use crate::alloc::with_hash_seed;
use crate::attack;
use crate::ctx::{viol, Ctx, R};
use crate::gen::*;
use crate::model::*;
use crate::refparse;
use crate::service::*;
use crate::tenant::gen_tenant;
use crate::vars::*;

pub const PROP: Prop = Prop {
    id: "S17",
    run,
    known: &[("deep-nesting", known_deep), ("operation-expansion", known_expansion), ("merge-subsets", known_subsets)],
    quick_secs: 40,
    thorough_secs: 600,
    min_secs: 40,
    rule: "A service process answers 1-3 attackers and an honest client, interleaved. Attackers send dense fragment graphs (up to 60 fragments, cyclic or not), nesting up to 400 levels, hundreds of repetitions of one element, token noise, damaged copies of other messages and schemas as random graphs of up to 60 definitions, to every entry point, with the caches of the process warm or cold. Work is measured in allocations, deterministically. Non-trivial: an attacker and the honest client were both answered.",
    real: "bluejay-parser, bluejay-core, bluejay-validator, bluejay-printer, bluejay-schema-comparator, bluejay-visibility",
    stub: "process (thread with controlled hash keys and heap), clients, transport",
    assumptions: "bounds: nesting beyond 400 levels (the process' stack) and analysis of operations of more than 3000 expanded selections are known findings and not sent. Work without allocations is bounded by the watchdog for hangs only.",
};

/// allocations that an answer may take, by the bytes of what it is about
fn allowed(r: &Req, w: &Service, expanded: usize) -> u64 {
    let size = |d: Option<usize>, s: &[usize]| (d.map(|d| w.docs[d].len()).unwrap_or(0) + s.iter().map(|s| w.schemas[*s].len()).sum::<usize>()) as u64;
    let quad = |n: u64| 2000 + 60 * n + n * n / 8;
    match r {
        Req::Parse(d) | Req::PrintDoc(d) => quad(size(Some(*d), &[])),
        Req::Sdl(s) | Req::Rules(s) | Req::PrintSchema(s) | Req::Directives(s) | Req::View(s, _) => quad(size(None, &[*s])),
        Req::Compare(a, b) => quad(size(None, &[*a, *b])),
        Req::Validate(d, s) | Req::Admit(d, s, ..) | Req::ViewValidate(d, s, _) => quad(size(Some(*d), &[*s])),
        Req::Analyze(d, s, ..) => quad(size(Some(*d), &[*s])) + 1500 * expanded as u64,
    }
}

fn kind(c: &mut Ctx, prev: &[String]) -> (String, &'static str) {
    match c.t.pick(8) {
        0..=2 => (attack::graph(&mut c.t, 60), "fragment_graph"),
        3 => (attack::deep(&mut c.t, 400), "deep_nesting"),
        4 | 5 => (attack::wide(&mut c.t, 200), "repetition"),
        6 => (attack::soup(&mut c.t, 120), "noise"),
        _ => match prev.last() {
            Some(p) => {
                let p = p.clone();
                (crate::net::transmit(c, &p, None, 3).0, "damaged_copy")
            }
            None => (attack::graph(&mut c.t, 60), "fragment_graph"),
        },
    }
}

fn run(c: &mut Ctx) -> R {
    let s = gen_schema(&mut c.t, &SchemaCfg::default());
    let mut schemas = vec![schema_plain(&s), attack::schema(&mut c.t)];
    let big = attack::big_schema(&mut c.t, 60);
    let bad = if c.t.chance(1, 3) { crate::net::transmit(c, &big, None, 3).0 } else { attack::big_schema(&mut c.t, 60) };
    schemas.push(big);
    schemas.push(bad);
    // the honest client
    let d = gen_doc(&mut c.t, &s, &DocCfg { budget: 25, max_depth: 3, ..Default::default() });
    let op = d.ops().next().cloned();
    let mut docs = vec![doc_plain(&d)];
    let mut vars = vec![op.as_ref().map(|o| gen_vars(&mut c.t, &s, o)).unwrap_or_default()];
    let name = op.and_then(|o| o.name);
    let tenants = vec![gen_tenant(&mut c.t, &s)];
    let honest = [Req::Validate(0, 0), Req::Admit(0, 0, name.clone(), 0), Req::Analyze(0, 0, name, 0), Req::PrintDoc(0), Req::PrintSchema(0), Req::View(0, 0), Req::ViewValidate(0, 0, 0)];
    let attackers = c.t.range(1, 3);
    let mut small = vec![usize::MAX];
    if c.faults_on {
        for _ in 0..c.t.range(1, 4) {
            let who = c.t.pick(attackers);
            let (d, k) = kind(c, &docs);
            c.step(who, "attack");
            c.fault(k);
            let n = refparse::parse(&d).ok().map(|d| d.ops().map(|o| attack::expanded(&d, &o.sels, &mut vec![], 3000)).max().unwrap_or(0)).unwrap_or(0);
            small.push(n);
            docs.push(d);
            vars.push(Vars::new());
        }
    }
    for x in schemas.iter().chain(&docs) {
        c.input(x);
    }
    let w = Service { schemas, docs, vars, tenants };
    let mut reqs: Vec<Req> = vec![];
    let mut plan: Vec<(usize, bool)> = vec![];
    for _ in 0..c.t.range(4, 14) {
        let r = if c.t.chance(1, 3) || w.docs.len() == 1 {
            honest[c.t.pick(honest.len())].clone()
        } else {
            let d = 1 + c.t.pick(w.docs.len() - 1);
            let si = if c.t.chance(3, 4) { 1 } else { c.t.pick(w.schemas.len()) };
            let sj = c.t.pick(w.schemas.len());
            let ok = small[d] < 3000;
            match c.t.pick(14) {
                0 => Req::Parse(d),
                1 => Req::Sdl(sj),
                2 => Req::Rules(sj),
                3..=5 => Req::Validate(d, si),
                6 if ok => Req::Admit(d, si, None, d),
                7 | 8 if ok => Req::Analyze(d, si, None, d),
                9 => Req::PrintDoc(d),
                10 => Req::PrintSchema(sj),
                11 => Req::Compare(sj, si),
                12 => Req::View(sj, 0),
                13 => Req::ViewValidate(d, si, 0),
                _ => Req::Validate(d, si),
            }
        };
        reqs.push(r);
        plan.push((reqs.len() - 1, c.t.chance(1, 4)));
    }
    let seed = c.t.raw() as u64;
    let (got, work) = {
        let (w, reqs, plan) = (&w, &reqs, &plan);
        crate::runner::guard(|| with_hash_seed(seed, || (life(w, reqs, plan), WORK.with(|x| x.borrow().clone()))))?
    };
    let mine: Vec<usize> = (0..reqs.len()).filter(|i| honest.contains(&reqs[*i])).collect();
    c.nontrivial = !mine.is_empty() && mine.len() < reqs.len();
    for (i, (r, a)) in reqs.iter().zip(&got).enumerate() {
        c.step(0, r.name());
        c.obs(a);
        c.eval();
        let n = match r {
            Req::Analyze(d, ..) | Req::Admit(d, ..) => small[*d].min(3000),
            _ => 0,
        };
        let (used, cap) = (work[i + 1], allowed(r, &w, n));
        if used > cap {
            let (d, s) = match r {
                Req::Validate(d, s) | Req::Admit(d, s, ..) | Req::Analyze(d, s, ..) | Req::ViewValidate(d, s, _) => (*d, *s),
                Req::Parse(d) | Req::PrintDoc(d) => (*d, 0),
                Req::Sdl(s) | Req::Rules(s) | Req::PrintSchema(s) | Req::View(s, _) | Req::Directives(s) => (0, *s),
                Req::Compare(a, _) => (0, *a),
            };
            return viol(format!("{}: work out of bounds", r.name()), format!("{used} allocations, at most {cap} expected\n{}\n{}", w.docs[d], w.schemas[s]));
        }
        if std::env::var("S17_STATS").is_ok() {
            eprintln!("W {} {:.4} {used} {cap}", r.name(), used as f64 / cap as f64);
        }
    }
    // alone, the honest client gets the same answers
    if !mine.is_empty() {
        let alone: Vec<(usize, bool)> = mine.iter().map(|i| plan[*i]).collect();
        let (w2, reqs) = (&w, &reqs);
        let again = crate::runner::guard(|| with_hash_seed(seed ^ 1, || life(w2, reqs, &alone)))?;
        for (i, a) in mine.iter().zip(again) {
            c.eval();
            if got[*i] != a {
                return viol("an honest client noticed", format!("{:?}: {}\nalone: {a}", reqs[*i], got[*i]));
            }
        }
    }
    Ok(())
}

// ------------------------------------------------------------------ known findings
/// run in a process of its own: `sim deep LEVELS`
pub fn deep(levels: usize) -> bool {
    use bluejay_parser::ast::{executable::ExecutableDocument, Parse};
    let d = format!("{}a{}", "{ a ".repeat(levels), "}".repeat(levels));
    std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || {
            let r: Result<ExecutableDocument, _> = ExecutableDocument::parse(&d);
            r.is_ok()
        })
        .unwrap()
        .join()
        .is_ok()
}

fn known_deep() -> Option<String> {
    use std::os::unix::process::ExitStatusExt;
    let out = std::process::Command::new(std::env::current_exe().ok()?).args(["deep", "200000"]).output().ok()?;
    out.status.signal().map(|s| format!("a document of 200000 nested selection sets (800 kB) ends the process (signal {s}): {}", String::from_utf8_lossy(&out.stderr).trim().replace('\n', " ")))
}

struct Visits(u64);
impl<'a, E: ExecutableDocument, S: SchemaDefinition, V: oper::VariableValues> oper::Visitor<'a, E, S, V> for Visits {
    type ExtraInfo = ();
    fn new(_: &'a E::OperationDefinition, _: &'a S, _: &'a V, _: &'a bluejay_validator::executable::Cache<'a, E, S>, _: ()) -> Self {
        Visits(0)
    }
    fn visit_field(&mut self, _: &'a E::Field, _: &'a S::FieldDefinition, _: TypeDefinitionReference<'a, S::TypeDefinition>, _: bool) {
        self.0 += 1;
    }
}
impl<'a, E: ExecutableDocument, S: SchemaDefinition, V: oper::VariableValues> oper::Analyzer<'a, E, S, V> for Visits {
    type Output = u64;
    fn into_output(self) -> u64 {
        self.0
    }
}

fn visits(n: usize) -> Option<u64> {
    let mut d = String::from("{ ...f0 }");
    for i in 0..n {
        d += &format!(" fragment f{i} on Query {{ ...f{0} ...f{0} }}", i + 1);
    }
    d += &format!(" fragment f{n} on Query {{ a }}");
    let e: bluejay_parser::ast::executable::ExecutableDocument = bluejay_parser::ast::Parse::parse(&d).ok()?;
    crate::world::with_schema("type Query { a: Int }", |rs| {
        let c = bluejay_validator::executable::Cache::new(&e, rs);
        let v = serde_json::Map::new();
        Ok(oper::Orchestrator::<_, _, _, Visits>::analyze(&e, rs, None, &v, &c, ()).ok())
    })
    .ok()?
}

fn known_expansion() -> Option<String> {
    let (a, b) = (visits(6)?, visits(12)?);
    (b >= 32 * a).then(|| format!("6 fragments that each spread the next one twice: {a} fields visited; 12: {b}"))
}

fn merge_work(n: usize) -> Option<u64> {
    use std::fmt::Write;
    let mut d = String::from("{ ...m0 }");
    for i in 0..n {
        let _ = write!(d, " fragment m{i} on Query {{ x: a {{ ...m{0} ...s{0}_{i} }} y: a {{ ...m{0} }} }}", i + 1);
        for j in 0..i {
            let _ = write!(d, " fragment s{i}_{j} on Query {{ x: a {{ ...s{0}_{j} }} y: a {{ ...s{0}_{j} }} }}", i + 1);
        }
    }
    let _ = write!(d, " fragment m{n} on Query {{ c }}");
    for j in 0..n {
        let _ = write!(d, " fragment s{n}_{j} on Query {{ c }}");
    }
    let e: bluejay_parser::ast::executable::ExecutableDocument = bluejay_parser::ast::Parse::parse(&d).ok()?;
    crate::world::with_schema("type Query { a: Query c: Int }", |rs| {
        let c = bluejay_validator::executable::Cache::new(&e, rs);
        crate::alloc::init();
        let before = crate::alloc::ALLOCS.load(std::sync::atomic::Ordering::SeqCst);
        crate::alloc::activate(true);
        let errs = bluejay_validator::executable::document::BuiltinRulesValidator::validate(&e, rs, &c).count();
        crate::alloc::activate(false);
        Ok((errs == 0).then(|| crate::alloc::ALLOCS.load(std::sync::atomic::Ordering::SeqCst) - before))
    })
    .ok()?
}

/// quadruple size, from 6 to 12
fn known_subsets() -> Option<String> {
    let (a, b) = (merge_work(6)?, merge_work(12)?);
    (b >= 32 * a).then(|| format!("21 fragments: {a} allocations; 78 fragments, three times as long: {b}"))
}
