//! Variable values as they travel (JSON), damage to them, and the reference coercion.
use crate::gen::*;
use crate::model::*;
use crate::refval::{scalar_ok, Vk};
use crate::tape::Tape;
use serde_json::{json, Map, Number, Value as J};

pub type Vars = Map<String, J>;

pub fn json_of(v: &Val) -> J {
    match v {
        Val::Null => J::Null,
        Val::Bool(b) => J::Bool(*b),
        Val::Int(i) => json!(*i),
        Val::Float(f) => Number::from_f64(*f).map(J::Number).unwrap_or(J::Null),
        Val::Str(s) | Val::Enum(s) => J::String(s.clone()),
        Val::List(l) => J::Array(l.iter().map(json_of).collect()),
        Val::Obj(o) => J::Object(o.iter().map(|(k, v)| (k.clone(), json_of(v))).collect()),
        Val::Var(_) => J::Null,
    }
}

/// values for the operation's variables that the specification accepts
pub fn gen_vars(t: &mut Tape, s: &Schema, op: &Op) -> Vars {
    let mut m = Map::new();
    for v in &op.vars {
        let must = v.ty.required() && v.default.is_none();
        if must || t.chance(2, 3) {
            let x = const_val(t, s, &v.ty, 2, false);
            m.insert(v.name.clone(), json_of(&x));
        }
    }
    m
}

fn nodes(v: &mut J, out: &mut Vec<*mut J>) {
    out.push(v as *mut J);
    match v {
        J::Array(a) => a.iter_mut().for_each(|x| nodes(x, out)),
        J::Object(o) => o.values_mut().for_each(|x| nodes(x, out)),
        _ => {}
    }
}

/// One piece of damage as a client with an old schema or a sloppy encoder does it.
pub fn spoil(t: &mut Tape, s: &Schema, m: &mut Vars) -> &'static str {
    let keys: Vec<String> = m.keys().cloned().collect();
    if keys.is_empty() || t.chance(1, 10) {
        m.insert((*t.choose(&["extra", "v9", "v0", "", "_"])).to_string(), json!(1));
        return "extra variable";
    }
    let k = t.choose(&keys).clone();
    if t.chance(1, 8) {
        m.remove(&k);
        return "lost variable";
    }
    let v = m.get_mut(&k).unwrap();
    let mut ns = vec![];
    nodes(v, &mut ns);
    let p = ns[t.pick(ns.len())];
    // the pointer comes from the tree borrowed above and is used before anything else touches it
    let n = unsafe { &mut *p };
    match t.pick(10) {
        0 => {
            *n = J::Null;
            "null"
        }
        1 => {
            *n = json!([n.clone()]);
            "wrapped in a list"
        }
        2 => {
            *n = t.choose(&[json!(1), json!("1"), json!(true), json!(1.5), json!([]), json!({}), json!([null]), json!([[1]]), json!(1.0), json!(3e9), json!("RED"), json!("red")]).clone();
            "other value"
        }
        3 => {
            if let J::Object(o) = n {
                let ks: Vec<String> = o.keys().cloned().collect();
                if !ks.is_empty() {
                    let k = t.choose(&ks).clone();
                    o.remove(&k);
                    return "lost input field";
                }
            }
            *n = J::Null;
            "null"
        }
        4 => {
            let fs: Vec<String> = s.types.iter().flat_map(|t| t.in_fields().iter().map(|f| f.name.clone())).collect();
            if let J::Object(o) = n {
                let k = if fs.is_empty() || t.chance(1, 3) { "unknown".to_string() } else { t.choose(&fs).clone() };
                o.insert(k, t.choose(&[json!(null), json!(1), json!("x")]).clone());
                return "extra input field";
            }
            *n = json!({"unknown": 1});
            "object"
        }
        5 => {
            if let J::Array(a) = n {
                if !a.is_empty() {
                    *n = a[0].clone();
                    return "list unwrapped";
                }
            }
            *n = json!([]);
            "empty list"
        }
        6 => {
            let i = n.as_i64().unwrap_or(0);
            *n = t.choose(&[json!(i as f64 + 0.5), json!(i.to_string()), json!(2147483648i64), json!(-2147483649i64), json!(2147483647), json!(-2147483648i64)]).clone();
            "number edge"
        }
        7 => {
            let es: Vec<String> = s.types.iter().flat_map(|t| t.enum_vals().iter().map(|f| f.name.clone())).collect();
            *n = if es.is_empty() { json!("NOPE") } else { json!(t.choose(&es)) };
            "enum value"
        }
        8 => {
            if let J::Array(a) = n {
                a.push(t.choose(&[json!(null), json!(1), json!("x"), json!([1])]).clone());
                return "list grown";
            }
            *n = json!([1, "x"]);
            "list"
        }
        _ => {
            *n = json!(t.choose(&["", "x", "RED", "true", "0"]));
            "string"
        }
    }
}

/// What is wrong with a value: (kind, path below the variable)
pub type Wrong = (&'static str, String);

fn at(p: &str, e: &str) -> String {
    format!("{p}/{e}")
}

/// CoerceVariableValues of the specification, as far as it can fail.
pub fn coerce(s: &Schema, ty: &Ty, v: &J, path: &str, implicit: bool, out: &mut Vec<Wrong>) {
    if v.is_null() {
        if ty.required() {
            out.push(("null", path.into()));
        }
        return;
    }
    match ty {
        Ty::List(i, _) => match v {
            J::Array(l) => l.iter().enumerate().for_each(|(n, x)| coerce(s, i, x, &at(path, &n.to_string()), false, out)),
            _ if implicit => coerce(s, i, v, path, true, out),
            _ => out.push(("type", path.into())),
        },
        Ty::Named(n, _) => {
            let int = v.as_i64().is_some_and(|i| i32::try_from(i).is_ok());
            let ok = match n.as_str() {
                "Int" => int,
                "Float" => v.is_number(),
                "String" => v.is_string(),
                "Boolean" => v.is_boolean(),
                "ID" => int || v.is_string(),
                _ => match s.ty(n).map(|t| &t.kind) {
                    Some(Kind::Scalar) => {
                        let k = match v {
                            J::Bool(_) => Vk::Bool,
                            J::Number(_) if int => Vk::Int,
                            J::Number(_) => Vk::Float,
                            J::String(_) => Vk::Str,
                            J::Array(_) => Vk::List,
                            J::Object(_) => Vk::Obj,
                            J::Null => Vk::Other,
                        };
                        if !scalar_ok(n, k) {
                            out.push(("custom", path.into()));
                        }
                        true
                    }
                    Some(Kind::Enum(vals)) => match v {
                        J::String(e) => {
                            if !vals.iter().any(|x| x.name == *e) {
                                out.push(("enum", path.into()));
                            }
                            true
                        }
                        _ => false,
                    },
                    Some(Kind::Input(fs)) => match v {
                        J::Object(o) => {
                            for (k, x) in o {
                                match fs.iter().find(|f| f.name == *k) {
                                    Some(f) => coerce(s, &f.ty, x, &at(path, k), true, out),
                                    None => out.push(("unknown field", at(path, k))),
                                }
                            }
                            if fs.iter().any(|f| f.required() && !o.contains_key(&f.name)) {
                                out.push(("missing fields", path.into()));
                            }
                            if s.ty(n).unwrap().one_of() {
                                if o.values().any(|x| x.is_null()) {
                                    out.push(("oneOf null", path.into()));
                                }
                                if o.values().filter(|x| !x.is_null()).count() != 1 {
                                    out.push(("oneOf count", path.into()));
                                }
                            }
                            true
                        }
                        _ => false,
                    },
                    _ => true,
                },
            };
            if !ok {
                out.push(("type", path.into()));
            }
        }
    }
}

/// (variable, kind, path) for everything wrong with the values given for `op`
pub fn judge(s: &Schema, op: &Op, m: &Vars) -> Vec<(String, &'static str, String)> {
    let mut out = vec![];
    for v in &op.vars {
        match m.get(&v.name) {
            Some(x) => {
                let mut w = vec![];
                coerce(s, &v.ty, x, "", true, &mut w);
                out.extend(w.into_iter().map(|(k, p)| (v.name.clone(), k, p)));
            }
            None => {
                if v.ty.required() && v.default.is_none() {
                    out.push((v.name.clone(), "missing", String::new()));
                }
            }
        }
    }
    for k in m.keys() {
        if !op.vars.iter().any(|v| v.name == *k) {
            out.push((k.clone(), "unused", String::new()));
        }
    }
    out.sort();
    out
}
