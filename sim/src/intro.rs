//! The introspection part of a schema (October 2021 specification plus the draft's includeDeprecated on arguments), as seen by clients.
use crate::model::*;
use crate::refparse::parse_sdl;

const SDL: &str = "
type __Schema { description: String types: [__Type!]! queryType: __Type! mutationType: __Type subscriptionType: __Type directives: [__Directive!]! }
type __Type { kind: __TypeKind! name: String description: String fields(includeDeprecated: Boolean = false): [__Field!] interfaces: [__Type!] possibleTypes: [__Type!] enumValues(includeDeprecated: Boolean = false): [__EnumValue!] inputFields(includeDeprecated: Boolean = false): [__InputValue!] ofType: __Type specifiedByURL: String }
type __Field { name: String! description: String args(includeDeprecated: Boolean = false): [__InputValue!]! type: __Type! isDeprecated: Boolean! deprecationReason: String }
type __InputValue { name: String! description: String type: __Type! defaultValue: String }
type __EnumValue { name: String! description: String isDeprecated: Boolean! deprecationReason: String }
type __Directive { name: String! description: String locations: [__DirectiveLocation!]! args(includeDeprecated: Boolean = false): [__InputValue!]! isRepeatable: Boolean! }
enum __TypeKind { SCALAR OBJECT INTERFACE UNION ENUM INPUT_OBJECT LIST NON_NULL }
enum __DirectiveLocation { QUERY MUTATION SUBSCRIPTION FIELD FRAGMENT_DEFINITION FRAGMENT_SPREAD INLINE_FRAGMENT VARIABLE_DEFINITION SCHEMA SCALAR OBJECT FIELD_DEFINITION ARGUMENT_DEFINITION INTERFACE UNION ENUM ENUM_VALUE INPUT_OBJECT INPUT_FIELD_DEFINITION }
";

impl Schema {
    /// the schema with its introspection types and the meta fields of the query root
    pub fn with_introspection(&self) -> Schema {
        let mut s = self.clone();
        let q = s.query.clone();
        if let Some(f) = s.ty_mut(&q).and_then(|t| t.fields_mut()) {
            let f0 = |n: &str, args: Vec<InVal>, ty: Ty| FieldDef { name: n.into(), desc: None, args, ty, dirs: vec![] };
            f.push(f0("__schema", vec![], Ty::Named("__Schema".into(), true)));
            let name = InVal { name: "name".into(), desc: None, ty: Ty::Named("String".into(), true), default: None, dirs: vec![] };
            f.push(f0("__type", vec![name], Ty::named("__Type")));
        }
        s.types.extend(parse_sdl(SDL).ok().expect("harness: introspection SDL").types);
        s
    }
}
