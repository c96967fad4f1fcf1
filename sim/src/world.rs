//! The real system under simulation: thin wrappers that drive bluejay's public API.
use crate::ctx::{viol, R};
use crate::model::*;
use crate::refval::Vk;
use bluejay_core::{Value, ValueReference};
use bluejay_parser::ast::definition::{Context, CustomScalarTypeDefinition, DefaultContext, DefinitionDocument, SchemaDefinition};
use bluejay_parser::ast::executable::ExecutableDocument;
use bluejay_parser::ast::Parse;
use bluejay_validator::executable::document::{BuiltinRulesValidator, Error, Orchestrator};
use bluejay_validator::executable::Cache;

/// The schema's own scalar policy, which the simulator decides.
#[derive(Debug)]
pub struct SimContext;
impl Context for SimContext {
    fn coerce_custom_scalar_input<const CONST: bool>(d: &CustomScalarTypeDefinition<Self>, value: &impl Value<CONST>) -> Result<(), std::borrow::Cow<'static, str>> {
        use bluejay_core::definition::ScalarTypeDefinition;
        let k = match value.as_ref() {
            ValueReference::Boolean(_) => Vk::Bool,
            ValueReference::Integer(_) => Vk::Int,
            ValueReference::Float(_) => Vk::Float,
            ValueReference::String(_) => Vk::Str,
            ValueReference::Enum(_) => Vk::Enum,
            ValueReference::List(_) => Vk::List,
            ValueReference::Object(_) => Vk::Obj,
            ValueReference::Null | ValueReference::Variable(_) => Vk::Other,
        };
        if crate::refval::own_scalar_ok(d.name(), k) {
            Ok(())
        } else {
            Err(format!("{} refuses this", d.name()).into())
        }
    }
}

pub type RS<'a> = SchemaDefinition<'a, DefaultContext>;
pub type SimRS<'a> = SchemaDefinition<'a, SimContext>;
pub type RE<'a> = ExecutableDocument<'a>;

/// Parse and resolve a schema that the harness generated as valid, then run `f` on it.
pub fn with_schema<T>(src: &str, f: impl FnOnce(&RS<'_>) -> R<T>) -> R<T> {
    with_schema_of(src, f)
}
pub fn with_schema_of<C: Context, T>(src: &str, f: impl FnOnce(&SchemaDefinition<'_, C>) -> R<T>) -> R<T> {
    let doc: DefinitionDocument<C> = match DefinitionDocument::parse(src) {
        Ok(d) => d,
        Err(e) => return viol("schema rejected (parse)", format!("valid schema rejected: {}\n{src}", parser_errs(src, e))),
    };
    let s = match SchemaDefinition::try_from(&doc) {
        Ok(s) => s,
        Err(e) => {
            let e: Vec<_> = e.into_iter().collect();
            return viol("schema rejected", format!("valid schema rejected: {}\n{src}", parser_errs(src, e)));
        }
    };
    f(&s)
}

pub fn parser_errs(src: &str, e: impl IntoIterator<Item = impl Into<bluejay_parser::Error>>) -> String {
    bluejay_parser::Error::format_errors(src, None, e)
}

pub fn parse_doc(src: &str) -> Result<RE<'_>, Vec<bluejay_parser::Error>> {
    ExecutableDocument::parse(src)
}

pub fn parse_valid<'a>(src: &'a str) -> R<RE<'a>> {
    match parse_doc(src) {
        Ok(d) => Ok(d),
        Err(e) => viol("document rejected (parse)", format!("well-formed document rejected: {}\n{src}", parser_errs(src, e))),
    }
}

pub fn errors<'a, S: bluejay_core::definition::SchemaDefinition>(e: &'a RE<'a>, s: &'a S, cache: &'a Cache<'a, RE<'a>, S>) -> Vec<Error<'a, RE<'a>, S>> {
    BuiltinRulesValidator::validate(e, s, cache).collect()
}

pub fn class<S: bluejay_core::definition::SchemaDefinition>(e: &Error<'_, RE<'_>, S>) -> &'static str {
    use bluejay_validator::executable::document::{ArgumentError as A, DirectiveError as D};
    macro_rules! arg {
        ($a:expr) => {
            match $a {
                A::NonUniqueArgumentNames { .. } => "ArgUniq",
                A::ArgumentDoesNotExistOnField { .. } => "ArgUnknownField",
                A::ArgumentDoesNotExistOnDirective { .. } => "ArgUnknownDir",
                A::DirectiveMissingRequiredArguments { .. } => "ArgMissingDir",
                A::FieldMissingRequiredArguments { .. } => "ArgMissingField",
            }
        };
    }
    macro_rules! dir {
        ($a:expr) => {
            match $a {
                D::DirectiveDoesNotExist { .. } => "DirUnknown",
                D::DirectiveInInvalidLocation { .. } => "DirLoc",
                D::DirectivesNotUniquePerLocation { .. } => "DirUniq",
            }
        };
    }
    match e {
        Error::NonUniqueOperationNames { .. } => "OpNameUniq",
        Error::NotLoneAnonymousOperation { .. } => "LoneAnonymous",
        Error::SubscriptionRootNotSingleField { .. } => "SubscriptionRoot",
        Error::FieldDoesNotExistOnType { .. } => "FieldUnknown",
        Error::OperationTypeNotDefined { .. } => "OpTypeUndefined",
        Error::LeafFieldSelectionNotEmpty { .. } => "LeafSel",
        Error::NonLeafFieldSelectionEmpty { .. } => "NonLeafNoSel",
        Error::NonUniqueFragmentDefinitionNames { .. } => "FragNameUniq",
        Error::FragmentDefinitionTargetTypeDoesNotExist { .. } => "FragNoType",
        Error::InlineFragmentTargetTypeDoesNotExist { .. } => "InlineNoType",
        Error::FragmentDefinitionTargetTypeNotComposite { .. } => "FragNotComposite",
        Error::InlineFragmentTargetTypeNotComposite { .. } => "InlineNotComposite",
        Error::FragmentDefinitionUnused { .. } => "FragUnused",
        Error::FragmentSpreadTargetUndefined { .. } => "SpreadUndefined",
        Error::FragmentSpreadCycle { .. } => "FragCycle",
        Error::FieldSelectionsDoNotMergeIncompatibleTypes { .. } => "MergeTypes",
        Error::FieldSelectionsDoNotMergeDifferingNames { .. } => "MergeNames",
        Error::FieldSelectionsDoNotMergeDifferingArguments { .. } => "MergeArgs",
        Error::FragmentSpreadIsNotPossible { .. } => "SpreadImpossible",
        Error::InlineFragmentSpreadIsNotPossible { .. } => "InlineImpossible",
        Error::InvalidConstValue(_) | Error::InvalidVariableValue(_) => "Value",
        Error::InvalidConstDirective(d) => dir!(d),
        Error::InvalidVariableDirective(d) => dir!(d),
        Error::InvalidConstArgument(a) => arg!(a),
        Error::InvalidVariableArgument(a) => arg!(a),
        Error::NonUniqueVariableDefinitionNames { .. } => "VarUniq",
        Error::VariableDefinitionTypeNotInput { .. } => "VarNotInput",
        Error::VariableNotDefined { .. } => "VarUndefined",
        Error::VariableDefinitionUnused { .. } => "VarUnused",
        Error::InvalidVariableUsage { .. } => "VarUsage",
    }
}

/// (class, rendered message) of every error, in delivery order
pub fn verdict<S: bluejay_core::definition::SchemaDefinition>(src: &str, e: &RE<'_>, s: &S) -> Vec<(&'static str, String)> {
    let cache = Cache::new(e, s);
    let errs: Vec<Error<'_, RE<'_>, S>> = Orchestrator::<_, _, bluejay_validator::executable::document::BuiltinRules<_, _>>::validate(e, s, &cache).collect();
    errs.into_iter()
        .map(|er| {
            let c = class(&er);
            (c, bluejay_parser::Error::format_errors(src, None, [er]))
        })
        .collect()
}

pub fn classes<S: bluejay_core::definition::SchemaDefinition>(e: &RE<'_>, s: &S) -> crate::refval::Classes {
    let cache = Cache::new(e, s);
    errors_of(e, s, &cache)
}
fn errors_of<'a, S: bluejay_core::definition::SchemaDefinition>(e: &'a RE<'a>, s: &'a S, cache: &'a Cache<'a, RE<'a>, S>) -> crate::refval::Classes {
    BuiltinRulesValidator::validate(e, s, cache).map(|x| class(&x)).collect()
}

pub fn sdl(s: &Schema) -> String {
    pretty(&schema_toks(s, None))
}
pub fn gql(d: &Doc) -> String {
    pretty(&doc_toks(d, None))
}
