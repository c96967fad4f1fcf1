//! One bluejay-backed service process ("a life"): every answer it can give to a client, rendered
//! completely and in the order delivered. Requests are texts; nothing else crosses the boundary.
use crate::tenant::{SimWarden, Tenant};
use crate::vars::Vars;
use crate::world::*;
use bluejay_core::definition::SchemaDefinition as CoreSchema;
use bluejay_parser::ast::definition::{DefaultContext, DefinitionDocument, SchemaDefinition};
use bluejay_parser::ast::Parse;
use bluejay_parser::Error as PE;
use bluejay_printer::definition::SchemaDefinitionPrinter;
use bluejay_printer::executable::ExecutableDocumentPrinter;
use bluejay_validator::executable::operation::analyzers::complexity_cost::RelayCostComputer;
use bluejay_validator::executable::operation::{analyzers::*, OperationResolutionError, Orchestrator};
use bluejay_validator::executable::Cache;
use bluejay_visibility as bv;
use std::cell::OnceCell;
use std::fmt::Write;

thread_local! {
    /// allocations per answer of the last life (first: reading everything)
    pub static WORK: std::cell::RefCell<Vec<u64>> = const { std::cell::RefCell::new(vec![]) };
}
fn clock() -> u64 {
    crate::alloc::ALLOCS.load(std::sync::atomic::Ordering::SeqCst)
}

pub struct Service {
    pub schemas: Vec<String>,
    pub docs: Vec<String>,
    pub vars: Vec<Vars>,
    pub tenants: Vec<Tenant>,
}

#[derive(Debug, Clone, PartialEq)]
pub enum Req {
    Parse(usize),
    Sdl(usize),
    Rules(usize),
    Validate(usize, usize),
    Admit(usize, usize, Option<String>, usize),
    Analyze(usize, usize, Option<String>, usize),
    PrintDoc(usize),
    PrintSchema(usize),
    Compare(usize, usize),
    View(usize, usize),
    ViewValidate(usize, usize, usize),
    Directives(usize),
}
impl Req {
    pub fn name(&self) -> &'static str {
        match self {
            Req::Parse(..) => "parse",
            Req::Sdl(..) => "sdl",
            Req::Rules(..) => "rules",
            Req::Validate(..) => "validate",
            Req::Admit(..) => "admit",
            Req::Analyze(..) => "analyze",
            Req::PrintDoc(..) => "print_doc",
            Req::PrintSchema(..) => "print_schema",
            Req::Compare(..) => "compare",
            Req::View(..) => "view",
            Req::ViewValidate(..) => "view_validate",
            Req::Directives(..) => "directives",
        }
    }
}

fn errs(src: &str, mk: impl Fn() -> Vec<PE>) -> String {
    let g = PE::into_graphql_errors(src, mk());
    let mut o = String::new();
    for e in g {
        let _ = write!(o, "{} {:?};", e.message, e.locations.iter().map(|l| (l.line, l.col)).collect::<Vec<_>>());
    }
    o + "\n" + &PE::format_errors(src, Some("f"), mk())
}

fn schema_errs(src: &str, d: &DefinitionDocument<'_, DefaultContext>) -> String {
    let mk = || -> Vec<PE> { SchemaDefinition::try_from(d).err().map(|e| e.into_iter().map(Into::into).collect()).unwrap_or_default() };
    errs(src, mk)
}

fn res(e: OperationResolutionError) -> String {
    match e {
        OperationResolutionError::NoOperationWithName { name } => format!("no operation {name}"),
        OperationResolutionError::AnonymousNotEligible => "ambiguous".into(),
    }
}

fn admit<'a, S: CoreSchema>(e: &'a RE<'a>, s: &'a S, cache: &'a Cache<'a, RE<'a>, S>, n: Option<&str>, v: &'a Vars) -> String {
    match Orchestrator::<_, _, _, VariableValuesAreValid<_, _, _>>::analyze(e, s, n, v, cache, ()) {
        Ok(l) => l.iter().map(|x| x.message()).collect::<Vec<_>>().join("\n"),
        Err(x) => res(x),
    }
}

fn analyze<'a, S: CoreSchema>(e: &'a RE<'a>, s: &'a S, cache: &'a Cache<'a, RE<'a>, S>, n: Option<&str>, v: &'a Vars) -> String {
    // costs are defined for valid documents only
    if errors(e, s, cache).into_iter().next().is_some() {
        return "refused".into();
    }
    let mut o = String::new();
    let d = Orchestrator::<_, _, _, QueryDepth>::analyze(e, s, n, v, cache, ());
    let _ = write!(o, "depth {:?} ", d.map_err(res));
    let d = Orchestrator::<_, _, _, ComplexityCost<_, _, _>>::analyze(e, s, n, v, cache, ());
    let _ = write!(o, "cost {:?} ", d.map_err(res));
    let d = Orchestrator::<_, _, _, ComplexityCost<_, _, _, RelayCostComputer<_, _, _>>>::analyze(e, s, n, v, cache, ());
    let _ = write!(o, "relay {:?} ", d.map_err(res));
    let d = Orchestrator::<_, _, _, InputSize<_, _>>::analyze(e, s, n, v, cache, 1);
    let _ = write!(o, "size {:?} ", d.map_err(res).map(|l| l.iter().map(|x| format!("{}={}", x.name, x.size)).collect::<Vec<_>>()));
    let d = Orchestrator::<_, _, _, Deprecation<_, _, _>>::analyze(e, s, n, v, cache, ());
    let _ = write!(o, "deprecated {:?}", d.map_err(res).map(|l| l.iter().map(|x| format!("{:?} {} {}", x.offense_type, x.name, x.reason)).collect::<Vec<_>>()));
    o
}

fn validate<'a, S: CoreSchema>(src: &str, e: &'a RE<'a>, s: &'a S, cache: &'a Cache<'a, RE<'a>, S>) -> String {
    let mk = || -> Vec<PE> { errors(e, s, cache).into_iter().map(Into::into).collect() };
    errs(src, mk)
}

fn listing<S: CoreSchema>(s: &S) -> String {
    SchemaDefinitionPrinter::to_string(s)
}

macro_rules! fresh {
    ($w:expr, $si:expr, $di:expr, |$e:ident, $s:ident, $c:ident| $body:expr) => {{
        match (DefinitionDocument::<DefaultContext>::parse($w.schemas[$si].as_str()), parse_doc(&$w.docs[$di])) {
            (Ok(d), Ok(e)) => match SchemaDefinition::try_from(&d) {
                Ok(s) => {
                    let cache = Cache::new(&e, &s);
                    let ($e, $s, $c) = (&e, &s, &cache);
                    $body
                }
                Err(_) => "-".to_string(),
            },
            _ => "-".to_string(),
        }
    }};
}

/// Everything one process answers to `plan`: (request, answered from scratch instead of from the
/// process' shared caches).
pub fn life(w: &Service, reqs: &[Req], plan: &[(usize, bool)]) -> Vec<String> {
    let mut at = clock();
    let mut work = vec![];
    let defs: Vec<Result<DefinitionDocument<'_, DefaultContext>, Vec<PE>>> = w.schemas.iter().map(|s| DefinitionDocument::parse(s.as_str())).collect();
    let schemas: Vec<Option<RS<'_>>> = defs.iter().map(|d| d.as_ref().ok().and_then(|d| SchemaDefinition::try_from(d).ok())).collect();
    let docs: Vec<Option<RE<'_>>> = w.docs.iter().map(|d| parse_doc(d).ok()).collect();
    // the service never lets the comparator see a schema that breaks the definition rules
    let caches: Vec<Vec<OnceCell<Cache<'_, RE<'_>, RS<'_>>>>> = docs.iter().map(|_| schemas.iter().map(|_| OnceCell::new()).collect()).collect();
    let scoped: Vec<Vec<Option<bv::Cache<'_, RS<'_>, SimWarden<'_>>>>> = schemas
        .iter()
        .map(|s| w.tenants.iter().map(|t| s.as_ref().map(|s| bv::Cache::new(SimWarden::new(std::rc::Rc::new(t.clone())), s))).collect())
        .collect();
    let mut out = vec![];
    work.push(clock() - at);
    for (i, cold) in plan {
        at = clock();
        let a = match &reqs[*i] {
            Req::Parse(d) => match &docs[*d] {
                Some(e) => format!("ok {}", ExecutableDocumentPrinter::to_string(e)),
                None => errs(&w.docs[*d], || parse_doc(&w.docs[*d]).err().unwrap_or_default()),
            },
            Req::Sdl(s) => match &defs[*s] {
                Ok(d) if *cold => {
                    let _ = d;
                    match DefinitionDocument::<DefaultContext>::parse(w.schemas[*s].as_str()) {
                        Ok(d) => schema_errs(&w.schemas[*s], &d),
                        Err(_) => String::new(),
                    }
                }
                Ok(d) => schema_errs(&w.schemas[*s], d),
                Err(_) => errs(&w.schemas[*s], || DefinitionDocument::<DefaultContext>::parse(w.schemas[*s].as_str()).err().unwrap_or_default()),
            },
            Req::Rules(s) => match &schemas[*s] {
                Some(rs) => errs(&w.schemas[*s], || bluejay_validator::definition::BuiltinRulesValidator::validate(rs).map(Into::into).collect()),
                None => "-".into(),
            },
            Req::Validate(d, s) => match (&docs[*d], &schemas[*s]) {
                (Some(e), Some(rs)) => {
                    if *cold {
                        fresh!(w, *s, *d, |e, s, c| validate(&w.docs[*d], e, s, c))
                    } else {
                        validate(&w.docs[*d], e, rs, caches[*d][*s].get_or_init(|| Cache::new(e, rs)))
                    }
                }
                _ => "-".into(),
            },
            Req::Admit(d, s, n, v) => match (&docs[*d], &schemas[*s]) {
                (Some(e), Some(rs)) => {
                    if *cold {
                        fresh!(w, *s, *d, |e, s, c| admit(e, s, c, n.as_deref(), &w.vars[*v]))
                    } else {
                        admit(e, rs, caches[*d][*s].get_or_init(|| Cache::new(e, rs)), n.as_deref(), &w.vars[*v])
                    }
                }
                _ => "-".into(),
            },
            Req::Analyze(d, s, n, v) => match (&docs[*d], &schemas[*s]) {
                (Some(e), Some(rs)) => {
                    if *cold {
                        fresh!(w, *s, *d, |e, s, c| analyze(e, s, c, n.as_deref(), &w.vars[*v]))
                    } else {
                        analyze(e, rs, caches[*d][*s].get_or_init(|| Cache::new(e, rs)), n.as_deref(), &w.vars[*v])
                    }
                }
                _ => "-".into(),
            },
            Req::PrintDoc(d) => match &docs[*d] {
                Some(e) => ExecutableDocumentPrinter::to_string(e),
                None => "-".into(),
            },
            Req::PrintSchema(s) => match &schemas[*s] {
                Some(rs) => listing(rs),
                None => "-".into(),
            },
            Req::Directives(s) => match &defs[*s] {
                Ok(d) => d.directive_definitions().iter().map(|d| bluejay_core::definition::DirectiveDefinition::name(d)).collect::<Vec<_>>().join(" "),
                Err(_) => "-".into(),
            },
            Req::Compare(a, b) => match (&schemas[*a], &schemas[*b]) {
                (Some(a), Some(b)) => bluejay_schema_comparator::compare(a, b).changes.iter().map(|c| format!("{} {} {}\n", c.path(), c.criticality().reason(), c.message())).collect(),
                _ => "-".into(),
            },
            Req::View(s, t) => match &scoped[*s][*t] {
                Some(c) => match bv::SchemaDefinition::new(c) {
                    Ok(v) => listing(&v),
                    Err(e) => format!("{e:?}"),
                },
                None => "-".into(),
            },
            Req::ViewValidate(d, s, t) => match (&docs[*d], &scoped[*s][*t]) {
                (Some(e), Some(c)) => match bv::SchemaDefinition::new(c) {
                    Ok(v) => {
                        let cache = Cache::new(e, &v);
                        let l: Vec<_> = errors_in(e, &v, &cache);
                        l.join("\n")
                    }
                    Err(e) => format!("{e:?}"),
                },
                _ => "-".into(),
            },
        };
        out.push(a);
        work.push(clock() - at);
    }
    WORK.with(|w| *w.borrow_mut() = work);
    out
}

fn errors_in<S: CoreSchema>(e: &RE<'_>, s: &S, _: &Cache<'_, RE<'_>, S>) -> Vec<String> {
    verdict("", e, s).into_iter().map(|x| format!("{} {}", x.0, x.1.lines().next().unwrap_or(""))).collect()
}

