//! S05: rules and analyzers composed in any way see every event once and do not disturb each other.
use super::Prop;
use crate::ctx::{viol, Ctx, R};
use crate::ensure;
use crate::gen::*;
use crate::meter::{small, Meter};
use crate::model::*;
use crate::mutate::mutate;
use crate::snap;
use crate::vars::*;
use crate::world::*;
use bluejay_core::definition::{self as def, DirectiveLocation, EnumTypeDefinition, FieldDefinition, InputObjectTypeDefinition, InputValueDefinition, SchemaDefinition as CoreSchema, TypeDefinitionReference};
use bluejay_core::executable::{self as exe, ExecutableDocument, Field, FragmentDefinition, FragmentSpread, InlineFragment, OperationDefinition, Selection, SelectionReference, VariableDefinition};
use bluejay_core::{Argument, AsIter, Directive, Variable as _};
use bluejay_validator::definition as vd;
use bluejay_validator::executable::document::{self as doc, rules, BuiltinRules, Error, Path, PathRoot, RuleErrorAdapter};
use bluejay_validator::executable::operation::analyzers::complexity_cost::RelayCostComputer;
use bluejay_validator::executable::operation::{self as oper, analyzers::*, OperationResolutionError, VariableValues};
use bluejay_validator::executable::Cache;
use std::cell::Cell;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub const PROP: Prop = Prop {
    id: "S05",
    run,
    known: &[],
    quick_secs: 35,
    thorough_secs: 600,
    min_secs: 35,
    rule: "A run deploys a gateway whose pipelines are composed of 1-10 recording rules or analyzers, alone, in tuples of every size, nested in tuples, mixed with the built-in rules and analyzers, or combined into one definition rule. 2-4 clients (some with version skew) have documents processed in turn, over shared caches, by pipelines the scheduler picks; a component crashes (unwinds) at an arbitrary event and the request is retried. Non-trivial: a composition of several components was compared.",
    real: "bluejay-validator: document and operation orchestrators, Visitor/Rule/Analyzer tuples, RuleErrorAdapter, BuiltinRules, combine_definition_rules!, definition Validator, Cache; bluejay-parser",
    stub: "clients, transport, recording components",
    assumptions: "reference traversal: every element of the document once, in the scope of its parent, elements below unknown ones excepted; per operation every spread is followed unless it is being spread. The order of events is compared between compositions only, and by the nesting of visits and leaves.",
};

thread_local! {
    /// (component, number of events it survives)
    static CRASH: Cell<Option<(usize, usize)>> = const { Cell::new(None) };
}
struct Crash;

// ------------------------------------------------------------------ recording components

pub struct Log {
    k: usize,
    v: Vec<String>,
}
impl Log {
    fn new(k: usize) -> Self {
        Log { k, v: vec![] }
    }
    fn add(&mut self, s: String) {
        if CRASH.get() == Some((self.k, self.v.len())) {
            std::panic::resume_unwind(Box::new(Crash));
        }
        self.v.push(s)
    }
}

/// A rule's error, or the event a recording rule saw.
#[derive(Debug, PartialEq, Clone)]
pub enum Ev {
    Seen(usize, String),
    Rule(&'static str, String),
}
impl<'a, S: CoreSchema> From<Error<'a, RE<'a>, S>> for Ev {
    fn from(e: Error<'a, RE<'a>, S>) -> Ev {
        let c = class(&e);
        Ev::Rule(c, bluejay_parser::Error::from(e).message().to_string())
    }
}

pub struct Rec<const K: usize>(Log);

fn loc(l: DirectiveLocation) -> String {
    l.to_string()
}
fn root<E: ExecutableDocument>(p: &Path<'_, E>) -> String {
    match p.root() {
        PathRoot::Operation(o) => format!("@op {}", o.as_ref().name().unwrap_or("-")),
        PathRoot::Fragment(f) => format!("@frag {}", f.name()),
    }
}
fn one_dir<const C: bool, D: Directive<C>>(d: &D) -> String {
    format!("{}{:?}", d.name(), snap::args(d.arguments()))
}

impl<'a, const K: usize, E: ExecutableDocument, S: CoreSchema> doc::Visitor<'a, E, S> for Rec<K> {
    fn new(_: &'a E, _: &'a S, _: &'a Cache<'a, E, S>) -> Self {
        Rec(Log::new(K))
    }
    fn visit_operation_definition(&mut self, o: &'a E::OperationDefinition) {
        let o = snap::op::<E>(o);
        self.0.add(format!("operation {} {:?} {}", o.kind.kw(), o.name, o.vars.len()))
    }
    fn visit_selection_set(&mut self, s: &'a E::SelectionSet, t: TypeDefinitionReference<'a, S::TypeDefinition>) {
        let keys: Vec<String> = s
            .iter()
            .map(|x| match x.as_ref() {
                SelectionReference::Field(f) => f.response_name().to_string(),
                SelectionReference::FragmentSpread(f) => format!("...{}", f.name()),
                SelectionReference::InlineFragment(f) => format!("...on {}", f.type_condition().unwrap_or("-")),
            })
            .collect();
        self.0.add(format!("set {} {keys:?}", t.name()))
    }
    fn visit_field(&mut self, f: &'a E::Field, d: &'a S::FieldDefinition, p: &Path<'a, E>) {
        let d = snap::field(d);
        self.0.add(format!("field {} {} as {} {}", d.name, d.ty.show(), f.response_name(), root(p)))
    }
    fn visit_const_directive(&mut self, d: &'a E::Directive<true>, l: DirectiveLocation) {
        self.0.add(format!("const directive {} {}", one_dir(d), loc(l)))
    }
    fn visit_variable_directive(&mut self, d: &'a E::Directive<false>, l: DirectiveLocation) {
        self.0.add(format!("directive {} {}", one_dir(d), loc(l)))
    }
    fn visit_const_directives(&mut self, d: &'a E::Directives<true>, l: DirectiveLocation) {
        self.0.add(format!("const directives {:?} {}", d.iter().map(|d| d.name()).collect::<Vec<_>>(), loc(l)))
    }
    fn visit_variable_directives(&mut self, d: &'a E::Directives<false>, l: DirectiveLocation) {
        self.0.add(format!("directives {:?} {}", d.iter().map(|d| d.name()).collect::<Vec<_>>(), loc(l)))
    }
    fn visit_fragment_definition(&mut self, f: &'a E::FragmentDefinition) {
        self.0.add(format!("fragment {} on {}", f.name(), f.type_condition()))
    }
    fn visit_inline_fragment(&mut self, f: &'a E::InlineFragment, t: TypeDefinitionReference<'a, S::TypeDefinition>) {
        self.0.add(format!("inline on {} in {}", f.type_condition().unwrap_or("-"), t.name()))
    }
    fn visit_fragment_spread(&mut self, f: &'a E::FragmentSpread, t: TypeDefinitionReference<'a, S::TypeDefinition>, p: &Path<'a, E>) {
        self.0.add(format!("spread {} in {} {}", f.name(), t.name(), root(p)))
    }
    fn visit_const_argument(&mut self, a: &'a E::Argument<true>, i: &'a S::InputValueDefinition) {
        self.0.add(format!("const argument {} {:?} for {} {}", a.name(), snap::value(a.value()), i.name(), snap::in_ty(i.r#type()).show()))
    }
    fn visit_variable_argument(&mut self, a: &'a E::Argument<false>, i: &'a S::InputValueDefinition, p: &Path<'a, E>) {
        self.0.add(format!("argument {} {:?} for {} {} {}", a.name(), snap::value(a.value()), i.name(), snap::in_ty(i.r#type()).show(), root(p)))
    }
    fn visit_variable_definition(&mut self, v: &'a E::VariableDefinition) {
        self.0.add(format!("variable {}", v.variable()))
    }
    fn visit_variable_definitions(&mut self, v: &'a E::VariableDefinitions) {
        self.0.add(format!("variables {:?}", v.iter().map(|v| v.variable()).collect::<Vec<_>>()))
    }
}
impl<'a, const K: usize, E: ExecutableDocument, S: CoreSchema> doc::Rule<'a, E, S> for Rec<K> {
    type Error = Ev;
    type Errors = std::vec::IntoIter<Ev>;
    fn into_errors(self) -> Self::Errors {
        self.0.v.into_iter().map(|s| Ev::Seen(K, s)).collect::<Vec<_>>().into_iter()
    }
}
impl<'a, const K: usize, E: ExecutableDocument, S: CoreSchema> doc::Analyzer<'a, E, S> for Rec<K> {
    type Output = (usize, Vec<String>);
    fn into_output(self) -> Self::Output {
        (K, self.0.v)
    }
}

/// Recording operation analyzer; remembers which extra information reached it.
pub struct ORec<const K: usize>(Log, usize);
impl<'a, const K: usize, E: ExecutableDocument, S: CoreSchema, V: VariableValues> oper::Visitor<'a, E, S, V> for ORec<K> {
    type ExtraInfo = usize;
    fn new(o: &'a E::OperationDefinition, _: &'a S, _: &'a V, _: &'a Cache<'a, E, S>, x: usize) -> Self {
        let mut l = Log::new(K);
        l.v.push(format!("operation {:?}", o.as_ref().name()));
        ORec(l, x)
    }
    fn visit_variable_argument(&mut self, a: &'a E::Argument<false>, i: &'a S::InputValueDefinition) {
        self.0.add(format!("argument {} {:?} for {} {}", a.name(), snap::value(a.value()), i.name(), snap::in_ty(i.r#type()).show()))
    }
    fn visit_field(&mut self, f: &'a E::Field, d: &'a S::FieldDefinition, t: TypeDefinitionReference<'a, S::TypeDefinition>, inc: bool) {
        self.0.add(format!("visit {}.{} as {} {inc}", t.name(), d.name(), f.response_name()))
    }
    fn leave_field(&mut self, f: &'a E::Field, d: &'a S::FieldDefinition, t: TypeDefinitionReference<'a, S::TypeDefinition>, inc: bool) {
        self.0.add(format!("leave {}.{} as {} {inc}", t.name(), d.name(), f.response_name()))
    }
    fn visit_variable_definition(&mut self, v: &'a E::VariableDefinition) {
        self.0.add(format!("variable {}", v.variable()))
    }
}
impl<'a, const K: usize, E: ExecutableDocument, S: CoreSchema, V: VariableValues> oper::Analyzer<'a, E, S, V> for ORec<K> {
    type Output = (usize, usize, Vec<String>);
    fn into_output(self) -> Self::Output {
        (K, self.1, self.0.v)
    }
}

// ------------------------------------------------------------------ reference traversal

struct Walk<'d> {
    s: &'d Schema,
    out: Vec<String>,
    root: String,
}
fn ivd<'x>(l: &'x [InVal], n: &str) -> Option<&'x InVal> {
    l.iter().find(|i| i.name == n)
}
impl<'d> Walk<'d> {
    fn args(&mut self, args: &[(String, Val)], defs: &[InVal]) {
        for (n, v) in args {
            if let Some(i) = ivd(defs, n) {
                self.out.push(format!("argument {n} {v:?} for {} {} {}", i.name, i.ty.show(), self.root));
            }
        }
    }
    fn dirs(&mut self, d: &Dirs, l: &str) {
        if d.is_empty() {
            return;
        }
        self.out.push(format!("directives {:?} {l}", d.iter().map(|d| d.name.as_str()).collect::<Vec<_>>()));
        for d in d {
            self.out.push(format!("directive {}{:?} {l}", d.name, d.args));
            if let Some(dd) = crate::refval::dir_def(self.s, &d.name) {
                self.args(&d.args, &dd.args);
            }
        }
    }
    fn set(&mut self, sels: &[Sel], on: &str) {
        let keys: Vec<String> = sels
            .iter()
            .map(|x| match x {
                Sel::Field(f) => f.key().to_string(),
                Sel::Spread(n, _) => format!("...{n}"),
                Sel::Inline(t, ..) => format!("...on {}", t.as_deref().unwrap_or("-")),
            })
            .collect();
        self.out.push(format!("set {on} {keys:?}"));
        for x in sels {
            match x {
                Sel::Field(f) => {
                    if let Some(ty) = self.s.field_ty(on, &f.name) {
                        self.out.push(format!("field {} {} as {} {}", f.name, ty.show(), f.key(), self.root));
                        self.dirs(&f.dirs, "FIELD");
                        if let Some(fd) = self.s.field(on, &f.name) {
                            self.args(&f.args, &fd.args.clone());
                        }
                        if !f.sels.is_empty() {
                            self.set(&f.sels, ty.base());
                        }
                    }
                }
                Sel::Inline(t, d, s) => {
                    self.dirs(d, "INLINE_FRAGMENT");
                    let at = t.as_deref().unwrap_or(on).to_string();
                    if self.known(&at) {
                        self.set(s, &at);
                    }
                    self.out.push(format!("inline on {} in {on}", t.as_deref().unwrap_or("-")));
                }
                Sel::Spread(n, d) => {
                    self.dirs(d, "FRAGMENT_SPREAD");
                    self.out.push(format!("spread {n} in {on} {}", self.root));
                }
            }
        }
    }
    fn known(&self, n: &str) -> bool {
        is_builtin_scalar(n) || self.s.ty(n).is_some()
    }
    fn doc(mut self, d: &Doc) -> Vec<String> {
        for o in d.ops() {
            self.root = format!("@op {}", o.name.as_deref().unwrap_or("-"));
            self.out.push(format!("operation {} {:?} {}", o.kind.kw(), o.name, o.vars.len()));
            self.dirs(&o.dirs, crate::refval::op_loc(o.kind));
            if !o.vars.is_empty() {
                self.out.push(format!("variables {:?}", o.vars.iter().map(|v| v.name.as_str()).collect::<Vec<_>>()));
            }
            for v in &o.vars {
                self.out.push(format!("variable {}", v.name));
                if !v.dirs.is_empty() {
                    self.out.push(format!("const directives {:?} VARIABLE_DEFINITION", v.dirs.iter().map(|d| d.name.as_str()).collect::<Vec<_>>()));
                }
                for x in &v.dirs {
                    self.out.push(format!("const directive {}{:?} VARIABLE_DEFINITION", x.name, x.args));
                    if let Some(dd) = crate::refval::dir_def(self.s, &x.name) {
                        for (n, v) in &x.args {
                            if let Some(i) = ivd(&dd.args, n) {
                                self.out.push(format!("const argument {n} {v:?} for {} {}", i.name, i.ty.show()));
                            }
                        }
                    }
                }
            }
            if let Some(r) = self.s.root(o.kind) {
                let r = r.to_string();
                self.set(&o.sels, &r);
            }
        }
        for f in d.frags() {
            self.root = format!("@frag {}", f.name);
            if self.known(&f.on) {
                self.set(&f.sels, &f.on);
            }
            self.dirs(&f.dirs, "FRAGMENT_DEFINITION");
            self.out.push(format!("fragment {} on {}", f.name, f.on));
        }
        self.out
    }
}

struct OpWalk<'d> {
    m: &'d Meter<'d>,
    out: Vec<String>,
    active: Vec<&'d str>,
}
impl<'d> OpWalk<'d> {
    fn args(&mut self, args: &[(String, Val)], defs: &[InVal]) {
        for (n, v) in args {
            if let Some(i) = ivd(defs, n) {
                self.out.push(format!("argument {n} {v:?} for {} {}", i.name, i.ty.show()));
            }
        }
    }
    fn dirs(&mut self, d: &Dirs) {
        for d in d {
            if let Some(dd) = crate::refval::dir_def(self.m.s, &d.name) {
                self.args(&d.args, &dd.args);
            }
        }
    }
    fn set(&mut self, sels: &'d [Sel], on: &str, inc: bool) {
        for x in sels {
            match x {
                Sel::Field(f) => {
                    let Some(ty) = self.m.s.field_ty(on, &f.name) else { continue };
                    self.dirs(&f.dirs);
                    let inc = inc && self.m.included(&f.dirs);
                    self.out.push(format!("visit {on}.{} as {} {inc}", f.name, f.key()));
                    if let Some(fd) = self.m.s.field(on, &f.name) {
                        self.args(&f.args, &fd.args);
                    }
                    self.set(&f.sels, ty.base(), inc);
                    self.out.push(format!("leave {on}.{} as {} {inc}", f.name, f.key()));
                }
                Sel::Inline(t, d, s) => {
                    self.dirs(d);
                    let inc = inc && self.m.included(d);
                    self.set(s, t.as_deref().unwrap_or(on), inc);
                }
                Sel::Spread(n, d) => {
                    self.dirs(d);
                    let inc = inc && self.m.included(d);
                    if let (Some(f), false) = (self.m.doc.frag(n), self.active.contains(&n.as_str())) {
                        self.active.push(n);
                        self.set(&f.sels, &f.on, inc);
                        self.active.pop();
                    }
                }
            }
        }
    }
    fn op(mut self) -> Vec<String> {
        let o = self.m.op;
        self.out.push(format!("operation {:?}", o.name));
        self.dirs(&o.dirs);
        if let Some(r) = self.m.s.root(o.kind) {
            self.set(&o.sels, r, true);
        }
        for v in &o.vars {
            self.out.push(format!("variable {}", v.name));
        }
        self.out
    }
}

fn diff(want: &[String], got: &[String]) -> Option<String> {
    let (mut w, mut g) = (want.to_vec(), got.to_vec());
    w.sort();
    g.sort();
    if w == g {
        return None;
    }
    let lost: Vec<_> = w.iter().filter(|x| w.iter().filter(|y| y == x).count() > g.iter().filter(|y| y == x).count()).collect();
    let extra: Vec<_> = g.iter().filter(|x| g.iter().filter(|y| y == x).count() > w.iter().filter(|y| y == x).count()).collect();
    Some(format!("not delivered: {lost:?}\ndelivered too often: {extra:?}"))
}

/// visits and leaves are balanced
fn nested(v: &[String]) -> bool {
    let mut st: Vec<&str> = vec![];
    for x in v {
        if let Some(x) = x.strip_prefix("visit ") {
            st.push(x)
        } else if let Some(x) = x.strip_prefix("leave ") {
            if st.pop() != Some(x) {
                return false;
            }
        }
    }
    st.is_empty()
}

// ------------------------------------------------------------------ pipelines

/// calls `$m!(n; k...)` for the chosen size
macro_rules! arity {
    ($n:expr, $m:ident) => {
        match $n {
            2 => $m!((0 a)(1 b)),
            3 => $m!((0 a)(1 b)(2 c)),
            4 => $m!((0 a)(1 b)(2 c)(3 d)),
            5 => $m!((0 a)(1 b)(2 c)(3 d)(4 e)),
            6 => $m!((0 a)(1 b)(2 c)(3 d)(4 e)(5 f)),
            7 => $m!((0 a)(1 b)(2 c)(3 d)(4 e)(5 f)(6 g)),
            8 => $m!((0 a)(1 b)(2 c)(3 d)(4 e)(5 f)(6 g)(7 h)),
            9 => $m!((0 a)(1 b)(2 c)(3 d)(4 e)(5 f)(6 g)(7 h)(8 i)),
            _ => $m!((0 a)(1 b)(2 c)(3 d)(4 e)(5 f)(6 g)(7 h)(8 i)(9 j)),
        }
    };
}

type Adapted<'a, S> = RuleErrorAdapter<BuiltinRules<'a, RE<'a>, S>, Ev>;

fn doc_analyze<'a>(n: usize, e: &'a RE<'a>, s: &'a RS<'a>, c: &'a Cache<'a, RE<'a>, RS<'a>>) -> Vec<(usize, Vec<String>)> {
    macro_rules! go {
        ($(($k:literal $v:ident))*) => {{
            let ($($v,)*) = doc::Orchestrator::<_, _, ($(Rec<$k>,)*)>::analyze(e, s, c);
            vec![$($v),*]
        }};
    }
    match n {
        1 => vec![doc::Orchestrator::<_, _, Rec<0>>::analyze(e, s, c)],
        11 => {
            let ((a, b), c, (d, (f, g))) = doc::Orchestrator::<_, _, ((Rec<0>, Rec<1>), Rec<2>, (Rec<3>, (Rec<4>, Rec<5>)))>::analyze(e, s, c);
            vec![a, b, c, d, f, g]
        }
        _ => arity!(n, go),
    }
}
fn doc_rules<'a>(n: usize, e: &'a RE<'a>, s: &'a RS<'a>, c: &'a Cache<'a, RE<'a>, RS<'a>>) -> Vec<Ev> {
    macro_rules! go {
        ($(($k:literal $v:ident))*) => { doc::Orchestrator::<_, _, ($(Rec<$k>,)*)>::validate(e, s, c).collect() };
    }
    match n {
        1 => doc::Orchestrator::<_, _, Rec<0>>::validate(e, s, c).collect(),
        11 => doc::Orchestrator::<_, _, ((Rec<0>, Rec<1>), Rec<2>, (Rec<3>, (Rec<4>, Rec<5>)))>::validate(e, s, c).collect(),
        _ => arity!(n, go),
    }
}
/// built-in rules and recorders side by side
fn doc_mixed<'a>(k: usize, e: &'a RE<'a>, s: &'a RS<'a>, c: &'a Cache<'a, RE<'a>, RS<'a>>) -> (Vec<Ev>, Vec<(usize, Vec<String>)>) {
    match k {
        0 => (doc::Orchestrator::<_, _, (Rec<0>, Adapted<'_, _>, Rec<1>)>::validate(e, s, c).collect(), vec![]),
        1 => {
            let (r, a) = doc::Orchestrator::<_, _, (Adapted<'_, _>, Rec<0>)>::validate_and_analyze(e, s, c);
            (r.collect(), vec![a])
        }
        2 => {
            let (r, (a, b, c)) = doc::Orchestrator::<_, _, ((Rec<0>, Adapted<'_, _>), (Rec<1>, Rec<2>, Rec<3>))>::validate_and_analyze(e, s, c);
            (r.collect(), vec![a, b, c])
        }
        3 => {
            let r = doc::Orchestrator::<_, _, (Rec<0>, Rec<1>, Rec<2>, Rec<3>, Rec<4>, Rec<5>, Rec<6>, Rec<7>, Rec<8>, (Adapted<'_, _>, Rec<9>))>::validate(e, s, c);
            (r.collect(), vec![])
        }
        _ => {
            let (r, a) = doc::Orchestrator::<_, _, (BuiltinRules<'_, _, _>, Rec<0>)>::validate_and_analyze(e, s, c);
            (r.map(Into::into).collect(), vec![a])
        }
    }
}
/// the built-in rules, each alone
fn solo<'a>(e: &'a RE<'a>, s: &'a RS<'a>, c: &'a Cache<'a, RE<'a>, RS<'a>>) -> Vec<Ev> {
    let mut v: Vec<Ev> = vec![];
    macro_rules! alone {
        ($($r:ty),* $(,)?) => { $( v.extend(doc::Orchestrator::<_, _, $r>::validate(e, s, c).map(Ev::from)); )* };
    }
    alone!(
        rules::NamedOperationNameUniqueness<_>,
        rules::LoneAnonymousOperation<_>,
        rules::SubscriptionOperationSingleRootField<_>,
        rules::FieldSelections<_, _>,
        rules::FieldSelectionMerging<_, _>,
        rules::OperationTypeIsDefined<_, _>,
        rules::LeafFieldSelections<_, _>,
        rules::ArgumentNames<_, _>,
        rules::ArgumentUniqueness<_, _>,
        rules::RequiredArguments<_, _>,
        rules::FragmentNameUniqueness<_>,
        rules::FragmentSpreadTypeExists<_, _>,
        rules::FragmentsOnCompositeTypes<_, _>,
        rules::FragmentsMustBeUsed<_>,
        rules::FragmentSpreadTargetDefined<_, _>,
        rules::FragmentSpreadsMustNotFormCycles<_, _>,
        rules::FragmentSpreadIsPossible<_, _>,
        rules::ValueIsValid<_, _>,
        rules::DirectivesAreDefined<_, _>,
        rules::DirectivesAreInValidLocations<_, _>,
        rules::DirectivesAreUniquePerLocation<_, _>,
        rules::VariableUniqueness<_, _>,
        rules::VariablesAreInputTypes<_, _>,
        rules::AllVariableUsesDefined<_, _>,
        rules::AllVariablesUsed<_, _>,
        rules::AllVariableUsagesAllowed<_, _>,
    );
    v
}

type Seen = (usize, usize, Vec<String>);
fn op_analyze<'a, 'n>(n: usize, e: &'a RE<'a>, s: &'a RS<'a>, c: &'a Cache<'a, RE<'a>, RS<'a>>, name: Option<&'n str>, v: &'a Vars) -> Result<Vec<Seen>, OperationResolutionError<'n>> {
    macro_rules! go {
        ($(($k:literal $v:ident))*) => {{
            let ($($v,)*) = oper::Orchestrator::<_, _, _, ($(ORec<$k>,)*)>::analyze(e, s, name, v, c, ($(100 + $k,)*))?;
            vec![$($v),*]
        }};
    }
    Ok(match n {
        1 => vec![oper::Orchestrator::<_, _, _, ORec<0>>::analyze(e, s, name, v, c, 100)?],
        11 => {
            let ((a, b), x, (d, (f, g))) = oper::Orchestrator::<_, _, _, ((ORec<0>, ORec<1>), ORec<2>, (ORec<3>, (ORec<4>, ORec<5>)))>::analyze(e, s, name, v, c, ((100, 101), 102, (103, (104, 105))))?;
            vec![a, b, x, d, f, g]
        }
        _ => arity!(n, go),
    })
}

/// the built-in meters' results
type Meters = (usize, usize, usize, Vec<(String, usize)>, Vec<String>, Vec<String>);
macro_rules! sizes {
    ($l:expr) => {
        $l.into_iter().map(|x| (x.name, x.size)).collect()
    };
}
macro_rules! deps {
    ($l:expr) => {
        $l.iter().map(|x| format!("{:?} {} {}", x.offense_type, x.name, x.reason)).collect()
    };
}
macro_rules! bad {
    ($l:expr) => {
        $l.iter().map(|x| x.message().to_string()).collect()
    };
}
type Relay<'a> = ComplexityCost<'a, RE<'a>, RS<'a>, Vars, RelayCostComputer<'a, RE<'a>, RS<'a>, Vars>>;
type Plain<'a> = ComplexityCost<'a, RE<'a>, RS<'a>, Vars>;
type Size<'a> = InputSize<'a, RE<'a>, Vars>;
type Dep<'a> = Deprecation<'a, RE<'a>, RS<'a>, Vars>;
type Adm<'a> = VariableValuesAreValid<'a, RE<'a>, RS<'a>, Vars>;

fn op_mixed<'a, 'n>(k: usize, max: usize, e: &'a RE<'a>, s: &'a RS<'a>, c: &'a Cache<'a, RE<'a>, RS<'a>>, n: Option<&'n str>, v: &'a Vars) -> Result<(Meters, Vec<Seen>), OperationResolutionError<'n>> {
    use oper::Orchestrator as O;
    Ok(match k {
        0 => (
            (
                O::<_, _, _, QueryDepth>::analyze(e, s, n, v, c, ())?,
                O::<_, _, _, Plain>::analyze(e, s, n, v, c, ())?,
                O::<_, _, _, Relay>::analyze(e, s, n, v, c, ())?,
                sizes!(O::<_, _, _, Size>::analyze(e, s, n, v, c, max)?),
                deps!(O::<_, _, _, Dep>::analyze(e, s, n, v, c, ())?),
                bad!(O::<_, _, _, Adm>::analyze(e, s, n, v, c, ())?),
            ),
            vec![],
        ),
        1 => {
            let (x, d, p, r, i, y, l, a, z) = O::<_, _, _, (ORec<0>, QueryDepth, Plain, Relay, Size, ORec<1>, Dep, Adm, ORec<2>)>::analyze(e, s, n, v, c, (100, (), (), (), max, 101, (), (), 102))?;
            ((d, p, r, sizes!(i), deps!(l), bad!(a)), vec![x, y, z])
        }
        2 => {
            let (a, l, x, i, r, p, y, d) = O::<_, _, _, (Adm, Dep, ORec<0>, Size, Relay, Plain, ORec<1>, QueryDepth)>::analyze(e, s, n, v, c, ((), (), 100, max, (), (), 101, ()))?;
            ((d, p, r, sizes!(i), deps!(l), bad!(a)), vec![x, y])
        }
        3 => {
            let ((r, i), (x, d), (l, (p, y), a)) = O::<_, _, _, ((Relay, Size), (ORec<0>, QueryDepth), (Dep, (Plain, ORec<1>), Adm))>::analyze(e, s, n, v, c, (((), max), (100, ()), ((), ((), 101), ())))?;
            ((d, p, r, sizes!(i), deps!(l), bad!(a)), vec![x, y])
        }
        _ => {
            let (x, p, _, d, r, a, i, y, l, _) = O::<_, _, _, (ORec<0>, Plain, Size, QueryDepth, Relay, Adm, Size, ORec<1>, Dep, Plain)>::analyze(e, s, n, v, c, (100, (), max + 7, (), (), (), max, 101, (), ()))?;
            ((d, p, r, sizes!(i), deps!(l), bad!(a)), vec![x, y])
        }
    })
}

// ------------------------------------------------------------------ definition rules

pub struct DefEv<'a, S: CoreSchema>(String, std::marker::PhantomData<&'a S>);
impl<'a> From<vd::Error<'a, RS<'a>>> for DefEv<'a, RS<'a>> {
    fn from(e: vd::Error<'a, RS<'a>>) -> Self {
        DefEv(bluejay_parser::Error::from(e).message().to_string(), std::marker::PhantomData)
    }
}
macro_rules! def_rec {
    ($n:ident, $k:literal) => {
        pub struct $n<'a, S: CoreSchema>(Log, std::marker::PhantomData<&'a S>);
        impl<'a, S: CoreSchema> vd::Visitor<'a, S> for $n<'a, S> {
            fn visit_input_object_type_definition(&mut self, d: &'a S::InputObjectTypeDefinition) {
                self.0.add(format!("input {}", d.name()))
            }
            fn visit_enum_type_definition(&mut self, d: &'a S::EnumTypeDefinition) {
                self.0.add(format!("enum {}", d.name()))
            }
        }
        impl<'a, S: CoreSchema> IntoIterator for $n<'a, S> {
            type Item = DefEv<'a, S>;
            type IntoIter = std::vec::IntoIter<DefEv<'a, S>>;
            fn into_iter(self) -> Self::IntoIter {
                self.0.v.into_iter().map(|s| DefEv(format!("{} {s}", $k), std::marker::PhantomData)).collect::<Vec<_>>().into_iter()
            }
        }
        impl<'a, S: CoreSchema> vd::Rule<'a, S> for $n<'a, S> {
            type Error = DefEv<'a, S>;
            fn new(_: &'a S) -> Self {
                $n(Log::new($k), std::marker::PhantomData)
            }
        }
    };
}
def_rec!(DefA, 0);
def_rec!(DefB, 1);
def_rec!(DefC, 2);
bluejay_validator::combine_definition_rules!(Two, DefEv, [DefA, DefB]);
bluejay_validator::combine_definition_rules!(Three, DefEv, [DefC, DefA, DefB]);

fn def_rules<'a>(k: usize, s: &'a RS<'a>) -> Vec<String> {
    let f = |x: DefEv<'a, RS<'a>>| x.0;
    match k {
        0 => vd::Validator::<_, DefA<'_, _>>::validate(s).map(f).collect(),
        1 => vd::Validator::<_, Two<'_, _>>::validate(s).map(f).collect(),
        _ => vd::Validator::<_, Three<'_, _>>::validate(s).map(f).collect(),
    }
}

// ------------------------------------------------------------------ the run

fn crashing<T>(c: &mut Ctx, comps: usize, events: usize, f: impl Fn() -> T) -> T {
    if comps > 0 && c.f(1, 4) {
        let at = (c.t.pick(comps.min(10)), c.t.pick(events.max(1)));
        CRASH.set(Some(at));
        let r = catch_unwind(AssertUnwindSafe(&f));
        CRASH.set(None);
        if let Err(e) = r {
            if !e.is::<Crash>() {
                std::panic::resume_unwind(e)
            }
            c.fault("component_crash");
        }
    }
    f()
}

fn process<'a>(c: &mut Ctx, full: &Schema, d: &Doc, e: &'a RE<'a>, rs: &'a RS<'a>, caches: &'a [Cache<'a, RE<'a>, RS<'a>>], calls: &'a [(Op, Vars)], show: &str) -> R {
    let want = Walk { s: full, out: vec![], root: String::new() }.doc(d);
    let alone: Vec<String> = doc_analyze(1, e, rs, &caches[0]).remove(0).1;
    c.eval();
    if let Some(x) = diff(&want, &alone) {
        return viol("document events", format!("{x}\n{show}"));
    }
    let builtin: Vec<Ev> = doc::BuiltinRulesValidator::validate(e, rs, &caches[0]).map(Ev::from).collect();
    let valid = builtin.is_empty();
    c.obs(&format!("{builtin:?}"));
    for _ in 0..c.t.range(1, 4) {
        let cache = &caches[c.t.pick(caches.len())];
        c.eval();
        match c.t.pick(4) {
            0 => {
                let n = c.t.range(1, 11);
                c.step(n, "analyzers");
                let got = crashing(c, n, want.len(), || doc_analyze(n, e, rs, cache));
                for (i, (k, l)) in got.iter().enumerate() {
                    ensure!(i == *k && *l == alone, "document analyzers", "component {i} of {n} delivered the output of {k}, or saw {l:?} instead of {alone:?}\n{show}");
                }
                c.nontrivial |= n > 1;
            }
            1 => {
                let n = c.t.range(1, 11);
                c.step(n, "rules");
                let got = crashing(c, n, want.len(), || doc_rules(n, e, rs, cache));
                let n = if n == 11 { 6 } else { n };
                let exp: Vec<Ev> = (0..n).flat_map(|k| alone.iter().map(move |s| Ev::Seen(k, s.clone()))).collect();
                ensure!(got == exp, "document rules", "{n} rules reported {got:?}\ninstead of {exp:?}\n{show}");
                c.nontrivial |= n > 1;
            }
            2 => {
                let k = c.t.pick(5);
                c.step(k, "mixed rules");
                let comps = [2, 1, 4, 10, 1][k];
                let (rules, an) = crashing(c, comps, want.len(), || doc_mixed(k, e, rs, cache));
                let rec = |k: usize| -> Vec<Ev> { alone.iter().map(|s| Ev::Seen(k, s.clone())).collect() };
                let b = || builtin.clone();
                let exp: Vec<Ev> = match k {
                    0 => [rec(0), b(), rec(1)].concat(),
                    2 => [rec(0), b()].concat(),
                    3 => (0..9).map(rec).chain([b(), rec(9)]).collect::<Vec<_>>().concat(),
                    _ => b(),
                };
                let first = if k == 2 { 1 } else { 0 };
                ensure!(rules == exp, "mixed rules", "composition {k} reported {rules:?}\ninstead of {exp:?}\n{show}");
                for (i, (j, l)) in an.iter().enumerate() {
                    ensure!(first + i == *j && *l == alone, "mixed analyzers", "composition {k}: component {i} delivered the output of {j}, or saw {l:?}\ninstead of {alone:?}\n{show}");
                }
                c.nontrivial = true;
            }
            _ => {
                c.step(0, "each rule alone");
                let got = solo(e, rs, cache);
                ensure!(got == builtin, "built-in rules", "the rules report {got:?} each alone but {builtin:?} together\n{show}");
                c.nontrivial = true;
                c.probe("solo");
            }
        }
    }
    // fragments are followed wherever they are spread
    if !small(d) {
        return Ok(());
    }
    for (o, v) in calls {
        let m = Meter { s: full, doc: d, op: o, vars: v, relay: false, tight: false, memo: Default::default() };
        let cache = &caches[c.t.pick(caches.len())];
        let n = c.t.range(1, 11);
        let name = o.name.as_deref();
        let one = match op_analyze(1, e, rs, cache, name, v) {
            Ok(l) => l,
            Err(_) => continue,
        };
        c.eval();
        let (tag, alone) = (one[0].1, &one[0].2);
        ensure!(tag == 100, "extra information", "{tag} instead of 100\n{show}");
        ensure!(nested(alone), "operation events", "visits and leaves are not nested: {alone:?}\n{show}");
        if valid && !m.undecided() {
            let want = OpWalk { m: &m, out: vec![], active: vec![] }.op();
            if let Some(x) = diff(&want, alone) {
                return viol("operation events", format!("{x}\nvalues {v:?}\n{show}"));
            }
            c.probe("operation_reference");
        }
        c.step(n, "operation analyzers");
        let got = crashing(c, n, alone.len(), || op_analyze(n, e, rs, cache, name, v).ok());
        let Some(got) = got else { return viol("operation analyzers", format!("{n} analyzers: operation {name:?} not found\n{show}")) };
        for (i, (k, x, l)) in got.iter().enumerate() {
            ensure!(i == *k && *x == 100 + i && l == alone, "operation analyzers", "component {i} of {n}: output of {k}, information {x}, saw {l:?}\ninstead of {alone:?}\n{show}");
        }
        c.nontrivial |= n > 1;
        if valid {
            let k = c.t.range(1, 4);
            let max = c.t.pick(4);
            c.step(k, "mixed operation analyzers");
            let base = op_mixed(0, max, e, rs, cache, name, v).ok();
            let got = crashing(c, 2, alone.len(), || op_mixed(k, max, e, rs, cache, name, v).ok());
            let (Some(base), Some(got)) = (base, got) else { return viol("mixed operation analyzers", format!("operation {name:?} not found\n{show}")) };
            c.obs(&format!("{:?}", base.0));
            ensure!(base.0 == got.0, "mixed operation analyzers", "composition {k} measured {:?} but alone {:?}\nvalues {v:?}\n{show}", got.0, base.0);
            for (i, (k, x, l)) in got.1.iter().enumerate() {
                ensure!(i == *k && *x == 100 + i && l == alone, "mixed operation analyzers", "component {i}: output of {k}, information {x}, saw {l:?}\ninstead of {alone:?}\n{show}");
            }
            c.probe("meters_mixed");
        }
    }
    Ok(())
}

fn run(c: &mut Ctx) -> R {
    let mut plain = gen_schema(&mut c.t, &SchemaCfg { connections: true, ..Default::default() });
    crate::meter::price(&mut c.t, &mut plain);
    let src = schema_plain(&plain);
    c.input(&src);
    let full = plain.with_introspection();
    // everything the clients send
    let n = c.t.range(2, 4);
    let mut sent = vec![];
    for _ in 0..n {
        let merge_heavy = c.t.chance(1, 3);
        let intro = c.t.chance(1, 4);
        let mut d = gen_doc(&mut c.t, if intro { &full } else { &plain }, &DocCfg { merge_heavy, budget: 25, max_depth: 4, ..Default::default() });
        let ops: Vec<Op> = d.ops().cloned().collect();
        let vars: Vec<Vars> = ops.iter().map(|o| gen_vars(&mut c.t, &full, o)).collect();
        if c.f(1, 2) {
            for _ in 0..c.t.range(1, 3) {
                mutate(&mut c.t, &full, &mut d);
                c.fault("client_version_skew");
            }
        }
        let src = doc_src(&d, Style::Plain, &mut c.t);
        let Ok(d) = crate::refparse::parse(&src) else { continue };
        let ops: Vec<Op> = d.ops().cloned().collect();
        let calls: Vec<(Op, Vars)> = ops.into_iter().zip(vars.into_iter().chain(std::iter::repeat(Vars::default()))).collect();
        // the first operation of a name answers for all of them
        let mut seen = vec![];
        let calls: Vec<_> = calls.into_iter().filter(|(o, _)| if seen.contains(&o.name) { false } else { seen.push(o.name.clone()); true }).collect();
        c.input(&src);
        sent.push((src, d, calls));
    }
    with_schema(&src, |rs| {
        // definition rules
        let want: Vec<String> = full.types.iter().filter_map(|t| if t.is_input() { Some(format!("input {}", t.name)) } else if t.is_enum() { Some(format!("enum {}", t.name)) } else { None }).collect();
        let alone: Vec<String> = def_rules(0, rs).into_iter().map(|s| s[2..].to_string()).collect();
        c.eval();
        if let Some(x) = diff(&want, &alone) {
            return viol("definition events", format!("{x}\n{src}"));
        }
        for (k, order) in [(1usize, &[0usize, 1][..]), (2, &[2, 0, 1][..])] {
            // which rule reports first is not promised
            let mut got = crashing(c, 3, alone.len(), || def_rules(k, rs));
            got.sort_by_key(|s| order.iter().position(|i| s.starts_with(&i.to_string())));
            let exp: Vec<String> = order.iter().flat_map(|i| alone.iter().map(move |s| format!("{i} {s}"))).collect();
            ensure!(got == exp, "definition rules", "{got:?} instead of {exp:?}\n{src}");
        }
        let mut docs = vec![];
        for (src, ..) in &sent {
            docs.push(parse_valid(src)?);
        }
        let caches: Vec<Vec<Cache<'_, RE<'_>, RS<'_>>>> = docs.iter().map(|e| (0..2).map(|_| Cache::new(e, rs)).collect()).collect();
        for _ in 0..c.t.range(n, 2 * n) {
            if sent.is_empty() {
                break;
            }
            let who = c.t.pick(sent.len());
            c.step(who, "request");
            let (dsrc, d, calls) = &sent[who];
            process(c, &full, d, &docs[who], rs, &caches[who], calls, &format!("{src}\n{dsrc}"))?;
        }
        Ok(())
    })
}
