//! S15: typed clients (bluejay-typegen) against servers that answer by the specification, over connections that break.
use super::Prop;
use crate::ctx::{viol, Ctx, R};
use crate::ensure;
use crate::model::*;
use crate::runner::guard;
use crate::tape::Tape;
use crate::typed::{self, norm};
use serde_json::Value as V;

pub const PROP: Prop = Prop {
    id: "S15",
    run,
    known: &[("conditional-fields", known_conditional)],
    quick_secs: 30,
    thorough_secs: 500,
    min_secs: 20,
    rule: "clients generated by the macro from random schemas and documents (serde, serde borrowing, miniserde; from files and inline) send typed values to a server, which admits and answers them by the specification, including values and types newer than the client. The scheduler interleaves the clients, cuts answers at any byte, lets the server break single values (null, wrong kind, lost, added, repeated or moved keys), and clients retry until an answer arrives whole. Non-trivial: an answer was read whole after at least one that was not.",
    real: "bluejay-typegen and bluejay-typegen-macro (the code they generate), bluejay-parser, bluejay-validator (admission of the values)",
    stub: "server, connection",
    assumptions: "documents within the documented restrictions, without @skip and @include (a known finding); names that do not collide when converted to Rust names and that Rust can express.",
};

/// What the generated clients need, and what is known about them.
pub mod rt {
    pub use serde_json::Value as V;
    use std::borrow::Cow;
    use std::fmt::Debug;

    pub trait FromV {
        fn from_v(v: &V) -> Self;
    }
    impl FromV for i32 {
        fn from_v(v: &V) -> Self {
            v.as_i64().expect("int") as i32
        }
    }
    impl FromV for i64 {
        fn from_v(v: &V) -> Self {
            v.as_i64().expect("long")
        }
    }
    impl FromV for f64 {
        fn from_v(v: &V) -> Self {
            v.as_f64().expect("float")
        }
    }
    impl FromV for bool {
        fn from_v(v: &V) -> Self {
            v.as_bool().expect("bool")
        }
    }
    impl FromV for String {
        fn from_v(v: &V) -> Self {
            v.as_str().expect("string").to_string()
        }
    }
    impl FromV for Cow<'_, str> {
        fn from_v(v: &V) -> Self {
            Cow::Owned(String::from_v(v))
        }
    }
    impl<T: FromV> FromV for Option<T> {
        fn from_v(v: &V) -> Self {
            (!v.is_null()).then(|| T::from_v(v))
        }
    }
    impl<T: FromV> FromV for Box<T> {
        fn from_v(v: &V) -> Self {
            Box::new(T::from_v(v))
        }
    }
    impl<T: FromV> FromV for Vec<T> {
        fn from_v(v: &V) -> Self {
            v.as_array().expect("list").iter().map(T::from_v).collect()
        }
    }

    fn seen<T: Debug + Clone + PartialEq>(x: T) -> String {
        // a value that is not a number differs from itself: there are none
        assert!(x.clone() == x, "a clone differs");
        format!("{x:?}")
    }
    pub fn dec_serde<'a, T: bluejay_typegen::serde::Deserialize<'a> + Debug + Clone + PartialEq>(s: &'a str) -> Result<String, ()> {
        serde_json::from_str::<T>(s).map(seen).map_err(|_| ())
    }
    pub fn dec_value<T: bluejay_typegen::serde::de::DeserializeOwned + Debug + Clone + PartialEq>(s: &str) -> Result<String, ()> {
        let v: V = serde_json::from_str(s).map_err(|_| ())?;
        serde_json::from_value::<T>(v).map(seen).map_err(|_| ())
    }
    pub fn dec_miniserde<T: bluejay_typegen::miniserde::Deserialize + Debug + Clone + PartialEq>(s: &str) -> Result<String, ()> {
        bluejay_typegen::miniserde::json::from_str::<T>(s).map(seen).map_err(|_| ())
    }
    pub fn enc_serde<T: FromV + bluejay_typegen::serde::Serialize>(v: &V) -> String {
        serde_json::to_string(&T::from_v(v)).expect("encodes")
    }
    pub fn enc_miniserde<T: FromV + bluejay_typegen::miniserde::Serialize>(v: &V) -> String {
        bluejay_typegen::miniserde::json::to_string(&T::from_v(v))
    }

    pub struct Dec {
        pub doc: usize,
        pub name: &'static str,
        pub text: fn(&str) -> Result<String, ()>,
        pub value: Option<fn(&str) -> Result<String, ()>>,
    }
    pub struct Client {
        pub name: &'static str,
        pub enc: &'static [(&'static str, fn(&V) -> String)],
        pub dec: &'static [Dec],
    }
    pub struct Case {
        pub sdl: &'static str,
        pub docs: &'static [&'static str],
        pub aliases: &'static [(&'static str, &'static str)],
        pub clients: &'static [Client],
    }
}
#[allow(clippy::all)]
pub mod cases {
    use super::rt::{Case, Client, Dec};
    include!(env!("TYPED_CASES"));
}
use rt::{Case, Client};

// ------------------------------------------------------------------ answers

#[derive(Clone, Debug, PartialEq)]
enum J {
    Null,
    Bool(bool),
    Num(String),
    Str(String),
    Arr(Vec<J>),
    Obj(Vec<(String, J)>),
}
impl J {
    fn s(x: &str) -> J {
        J::Str(x.into())
    }
    fn write(&self, t: &mut Tape, o: &mut String) {
        let ws = |t: &mut Tape, o: &mut String| {
            if t.chance(1, 12) {
                o.push_str(*t.choose(&[" ", "\n", "\t", "  ", "\r\n"]));
            }
        };
        ws(t, o);
        match self {
            J::Null => o.push_str("null"),
            J::Bool(b) => o.push_str(if *b { "true" } else { "false" }),
            J::Num(n) => o.push_str(n),
            J::Str(s) => string(t, s, o),
            J::Arr(l) => {
                o.push('[');
                for (i, x) in l.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    x.write(t, o);
                }
                ws(t, o);
                o.push(']');
            }
            J::Obj(l) => {
                o.push('{');
                for (i, (k, x)) in l.iter().enumerate() {
                    if i > 0 {
                        o.push(',');
                    }
                    ws(t, o);
                    string(t, k, o);
                    ws(t, o);
                    o.push(':');
                    x.write(t, o);
                }
                ws(t, o);
                o.push('}');
            }
        }
        ws(t, o);
    }
}
fn string(t: &mut Tape, s: &str, o: &mut String) {
    o.push('"');
    for c in s.chars() {
        match c {
            '"' => o.push_str("\\\""),
            '\\' => o.push_str("\\\\"),
            '\n' if t.chance(1, 2) => o.push_str("\\n"),
            '/' if t.chance(1, 2) => o.push_str("\\/"),
            c if (c as u32) < 0x20 || t.chance(1, 20) => {
                for u in c.encode_utf16(&mut [0; 2]) {
                    o.push_str(&format!("\\u{u:04x}"));
                }
            }
            c => o.push(c),
        }
    }
    o.push('"');
}

struct World {
    case: &'static Case,
    s: Schema,
    docs: Vec<Doc>,
}
impl World {
    fn alias(&self, n: &str) -> &'static str {
        self.case.aliases.iter().find(|a| a.0 == n).map(|a| a.1).unwrap_or("text")
    }
    // ---------------------------------------------------------------- server
    fn answer(&self, c: &mut Ctx, d: &Doc, ty: &Ty, sels: &[Sel]) -> J {
        if !ty.required() && c.t.chance(1, 6) {
            return J::Null;
        }
        match ty {
            Ty::List(i, _) => {
                let n = c.t.pick(4);
                J::Arr((0..n).map(|_| self.answer(c, d, i, sels)).collect())
            }
            Ty::Named(n, _) => match n.as_str() {
                "Int" => J::Num((*c.t.choose(&["0", "1", "-1", "2147483647", "-2147483648", "42"])).into()),
                "Float" => J::Num((*c.t.choose(&["0.5", "-2.25", "3", "0.0", "1e3", "-7", "12.125"])).into()),
                "Boolean" => J::Bool(c.t.chance(1, 2)),
                "String" | "ID" => J::s(*c.t.choose(&["", "a", "two words", "q\"uo\\te", "line\nbreak", "é🔥", "null", "a/b"])),
                _ => match &self.s.ty(n).unwrap().kind {
                    Kind::Scalar => match self.alias(n) {
                        "long" => J::Num((*c.t.choose(&["0", "1099511627776", "-5"])).into()),
                        "text" => J::s(*c.t.choose(&["", "2020-01-01", "x\ty"])),
                        _ => J::Arr((0..c.t.pick(3)).map(|_| J::s(*c.t.choose(&["", "x", "y\n"]))).collect()),
                    },
                    Kind::Enum(vs) => {
                        if c.f(1, 8) {
                            c.fault("newer_enum_value");
                            return J::s(*c.t.choose(&["NEW_VALUE", "Other", "", "red"]));
                        }
                        J::Str(c.t.choose(vs).name.clone())
                    }
                    _ => {
                        let p = self.s.possible(n);
                        let mut x = c.t.choose(&p).clone();
                        if self.s.ty(n).unwrap().is_union() && c.f(1, 8) {
                            c.fault("newer_member");
                            x = (*c.t.choose(&["NewThing", "Other", ""])).to_string();
                        }
                        self.object(c, d, &x, n, sels)
                    }
                },
            },
        }
    }
    /// an object of type `x` for selections on `n`; of an unknown type only the name is known
    fn object(&self, c: &mut Ctx, d: &Doc, x: &str, n: &str, sels: &[Sel]) -> J {
        let mut o: Vec<(String, J)> = vec![];
        for s in sels {
            match s {
                Sel::Field(f) if f.name == "__typename" => o.push((f.key().into(), J::s(x))),
                Sel::Field(f) => {
                    let t = self.s.field_ty(x, &f.name).expect("field");
                    o.push((f.key().into(), self.answer(c, d, &t, &f.sels)));
                }
                Sel::Spread(fr, _) => {
                    let fr = d.frag(fr).unwrap();
                    // of a member the client does not know, only the union's own fragments are asked
                    let applies = if self.s.ty(x).is_none() { fr.on == n } else { self.s.possible(&fr.on).iter().any(|y| y == x) };
                    if applies {
                        if let J::Obj(l) = self.object(c, d, x, &fr.on, &fr.sels) {
                            for e in l {
                                if !o.iter().any(|y| y.0 == e.0) {
                                    o.push(e);
                                }
                            }
                        }
                    }
                }
                Sel::Inline(on, _, sub) => {
                    if on.as_deref().unwrap_or(n) == x {
                        if let J::Obj(l) = self.object(c, d, x, x, sub) {
                            for e in l {
                                if !o.iter().any(|y| y.0 == e.0) {
                                    o.push(e);
                                }
                            }
                        }
                    }
                }
            }
        }
        J::Obj(o)
    }

    // ---------------------------------------------------------------- the client's book
    fn read(&self, d: &Doc, ty: &Ty, name: &str, sels: &[Sel], j: &J, mini: bool) -> Exp {
        if *j == J::Null {
            return if ty.required() { Exp::No } else { Exp::Is(T::None) };
        }
        let some = |e: Exp| if ty.required() { e } else { e.map(|t| T::Some(Box::new(t))) };
        match ty {
            Ty::List(i, _) => match j {
                J::Arr(l) => some(Exp::all(l.iter().map(|x| self.read(d, i, name, sels, x, mini)).collect()).map(T::List)),
                _ => Exp::No,
            },
            Ty::Named(n, _) => some(self.read_base(d, n, name, sels, j, mini)),
        }
    }
    fn read_base(&self, d: &Doc, n: &str, name: &str, sels: &[Sel], j: &J, mini: bool) -> Exp {
        let num = |x: &str| Exp::Is(T::Num(x.parse::<f64>().unwrap()));
        match (n, j) {
            ("Int", J::Num(x)) if x.contains(['.', 'e']) => Exp::Any,
            ("Int", J::Num(x)) => match x.parse::<i32>() {
                Ok(_) => num(x),
                Err(_) => Exp::No,
            },
            ("Float", J::Num(x)) => num(x),
            ("Boolean", J::Bool(b)) => Exp::Is(T::Bool(*b)),
            ("String" | "ID", J::Str(x)) => Exp::Is(T::Str(x.clone())),
            ("ID", J::Num(_)) => Exp::Any,
            ("Int" | "Float" | "Boolean" | "String" | "ID", _) => Exp::No,
            _ => match (&self.s.ty(n).unwrap().kind, j) {
                (Kind::Scalar, j) => match (self.alias(n), j) {
                    ("long", J::Num(x)) if !x.contains(['.', 'e']) => match x.parse::<i64>() {
                        Ok(v) => Exp::Is(T::Num(v as f64)),
                        Err(_) => Exp::No,
                    },
                    ("long", J::Num(_)) => Exp::Any,
                    ("text", J::Str(x)) => Exp::Is(T::Str(x.clone())),
                    ("texts", J::Arr(l)) => Exp::all(
                        l.iter()
                            .map(|x| match x {
                                J::Str(x) => Exp::Is(T::Str(x.clone())),
                                _ => Exp::No,
                            })
                            .collect(),
                    )
                    .map(T::List),
                    _ => Exp::No,
                },
                (Kind::Enum(vs), J::Str(x)) => Exp::Is(T::Struct(vs.iter().find(|v| v.name == *x).map(|v| norm(&v.name)).unwrap_or("other".into()), vec![])),
                (Kind::Enum(_), J::Obj(_) | J::Arr(_)) => Exp::Any,
                (Kind::Enum(_), _) => Exp::No,
                (_, J::Obj(o)) => {
                    if o.iter().enumerate().any(|(i, e)| o[..i].iter().any(|x| x.0 == e.0)) {
                        return Exp::Any;
                    }
                    self.read_obj(d, n, name, sels, o, mini)
                }
                // serde reads structs from lists as well
                (_, J::Arr(_)) => Exp::Any,
                _ => Exp::No,
            },
        }
    }
    fn read_obj(&self, d: &Doc, n: &str, name: &str, sels: &[Sel], o: &[(String, J)], mini: bool) -> Exp {
        if let [Sel::Spread(f, _)] = sels {
            let f = d.frag(f).unwrap();
            return self.read_obj(d, &f.on, &f.name, &f.sels, o, mini);
        }
        if self.s.ty(n).unwrap().is_union() {
            let x = match o.iter().find(|e| e.0 == "__typename") {
                Some((_, J::Str(x))) => x,
                Some((_, J::Num(_))) => return Exp::Any,
                _ => return Exp::No,
            };
            let arm = sels.iter().find_map(|s| match s {
                Sel::Inline(Some(on), _, sub) if on == x => Some((on, sub)),
                _ => None,
            });
            let (arm, sub): (&str, &[Sel]) = arm.map(|a| (a.0.as_str(), a.1.as_slice())).unwrap_or(("other", &[]));
            let mut e = self.fields(d, arm, &norm(arm), sub, o, mini, true);
            // miniserde needs the name first, and knows no keys but those selected
            let known = |k: &str| k == "__typename" || sub.iter().any(|s| matches!(s, Sel::Field(f) if f.key() == k));
            if mini && (o[0].0 != "__typename" || o.iter().any(|e| !known(&e.0))) {
                e = e.perhaps();
            }
            return e;
        }
        self.fields(d, n, &norm(name), sels, o, mini, false)
    }
    fn fields(&self, d: &Doc, n: &str, name: &str, sels: &[Sel], o: &[(String, J)], mini: bool, tagged: bool) -> Exp {
        let mut es = vec![];
        let mut ks = vec![];
        for s in sels {
            let Sel::Field(f) = s else { continue };
            if tagged && f.key() == "__typename" {
                continue;
            }
            let ty = self.s.field_ty(n, &f.name).unwrap();
            ks.push(norm(f.key()));
            es.push(match o.iter().find(|e| e.0 == f.key()) {
                Some((_, j)) => self.read(d, &ty, f.key(), &f.sels, j, mini),
                None if ty.required() => Exp::No,
                None => Exp::May(T::None),
            });
        }
        Exp::all(es).map(|v| T::Struct(name.to_string(), ks.into_iter().zip(v).collect()))
    }
}

/// what a client read
#[derive(Clone, Debug, PartialEq)]
enum T {
    None,
    Some(Box<T>),
    Bool(bool),
    Num(f64),
    Str(String),
    List(Vec<T>),
    /// a struct, a variant with fields, or (without fields) a unit variant
    Struct(String, Vec<(String, T)>),
}
#[derive(Clone, Debug)]
enum Exp {
    Is(T),
    /// refused, or this
    May(T),
    No,
    Any,
}
impl Exp {
    fn map(self, f: impl FnOnce(T) -> T) -> Exp {
        match self {
            Exp::Is(t) => Exp::Is(f(t)),
            Exp::May(t) => Exp::May(f(t)),
            e => e,
        }
    }
    fn perhaps(self) -> Exp {
        match self {
            Exp::Is(t) => Exp::May(t),
            e => e,
        }
    }
    fn all(es: Vec<Exp>) -> ExpList {
        if es.iter().any(|e| matches!(e, Exp::No)) {
            return ExpList(Err(Exp::No));
        }
        let mut may = false;
        let mut out = vec![];
        for e in es {
            match e {
                Exp::Any => return ExpList(Err(Exp::Any)),
                Exp::May(t) => {
                    may = true;
                    out.push(t);
                }
                Exp::Is(t) => out.push(t),
                Exp::No => {}
            }
        }
        ExpList(Ok((may, out)))
    }
}
struct ExpList(Result<(bool, Vec<T>), Exp>);
impl ExpList {
    fn map(self, f: impl FnOnce(Vec<T>) -> T) -> Exp {
        match self.0 {
            Ok((true, v)) => Exp::May(f(v)),
            Ok((false, v)) => Exp::Is(f(v)),
            Err(e) => e,
        }
    }
}

/// `{:?}` back into a tree
struct P<'s> {
    b: &'s [char],
    i: usize,
}
impl P<'_> {
    fn ws(&mut self) {
        while self.b.get(self.i).is_some_and(|c| c.is_whitespace()) {
            self.i += 1;
        }
    }
    fn eat(&mut self, c: char) -> bool {
        self.ws();
        let y = self.b.get(self.i) == Some(&c);
        self.i += y as usize;
        y
    }
    fn word(&mut self) -> String {
        self.ws();
        let at = self.i;
        while self.b.get(self.i).is_some_and(|c| c.is_alphanumeric() || "_.-+#".contains(*c)) {
            self.i += 1;
        }
        self.b[at..self.i].iter().collect()
    }
    fn val(&mut self) -> Option<T> {
        self.ws();
        match self.b.get(self.i)? {
            '"' => {
                self.i += 1;
                let mut s = String::new();
                loop {
                    let c = *self.b.get(self.i)?;
                    self.i += 1;
                    match c {
                        '"' => return Some(T::Str(s)),
                        '\\' => {
                            let c = *self.b.get(self.i)?;
                            self.i += 1;
                            match c {
                                'n' => s.push('\n'),
                                't' => s.push('\t'),
                                'r' => s.push('\r'),
                                '0' => s.push('\0'),
                                'u' => {
                                    self.eat('{').then_some(())?;
                                    let w = self.word();
                                    s.push(char::from_u32(u32::from_str_radix(&w, 16).ok()?)?);
                                    self.eat('}').then_some(())?;
                                }
                                c => s.push(c),
                            }
                        }
                        c => s.push(c),
                    }
                }
            }
            '[' => {
                self.i += 1;
                let mut v = vec![];
                while !self.eat(']') {
                    v.push(self.val()?);
                    self.eat(',');
                }
                Some(T::List(v))
            }
            c if c.is_ascii_digit() || *c == '-' => self.word().parse().ok().map(T::Num),
            _ => {
                let w = self.word();
                match w.as_str() {
                    "true" => return Some(T::Bool(true)),
                    "false" => return Some(T::Bool(false)),
                    "" => return None,
                    _ => {}
                }
                if self.eat('(') {
                    let x = self.val()?;
                    self.eat(',');
                    self.eat(')').then_some(())?;
                    return (w == "Some").then(|| T::Some(Box::new(x)));
                }
                let mut fs = vec![];
                if self.eat('{') {
                    while !self.eat('}') {
                        let k = self.word();
                        self.eat(':').then_some(())?;
                        fs.push((norm(&k), self.val()?));
                        self.eat(',');
                    }
                }
                Some(T::Struct(norm(&w), fs))
            }
        }
    }
}
/// `want` tells an absent value from an enum value called None
fn same(want: &T, got: &T) -> bool {
    match (want, got) {
        (T::None, T::Struct(n, f)) => n == "none" && f.is_empty(),
        (T::Some(a), T::Some(b)) => same(a, b),
        (T::List(a), T::List(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| same(a, b)),
        (T::Struct(n, a), T::Struct(m, b)) => n == m && a.len() == b.len() && a.iter().all(|(k, x)| b.iter().any(|(l, y)| k == l && same(x, y))),
        (a, b) => a == b,
    }
}

// ------------------------------------------------------------------ values sent

/// What the client meant and what it wrote. A missing value of an optional field may be written as null or left out; a
/// required field that has a default is left out.
fn meant(w: &World, ty: &Ty, sent: &V, got: &V, at: &str) -> Result<(), String> {
    match (ty, sent, got) {
        (_, V::Null, V::Null) if !ty.required() => Ok(()),
        (_, V::Null, _) | (_, _, V::Null) => Err(format!("{at}: meant {sent}, wrote {got}")),
        (Ty::List(i, _), V::Array(a), V::Array(b)) if a.len() == b.len() => a.iter().zip(b).enumerate().try_for_each(|(k, (a, b))| meant(w, i, a, b, &format!("{at}[{k}]"))),
        (Ty::Named(n, _), a, b) => match (w.s.ty(n).map(|t| &t.kind), a, b) {
            (Some(Kind::Input(fs)), V::Object(a), V::Object(b)) => {
                if let Some(k) = b.keys().find(|k| !fs.iter().any(|f| f.name == **k)) {
                    return Err(format!("{at}: wrote unknown key {k}"));
                }
                if w.s.ty(n).unwrap().one_of() && b.len() != 1 {
                    return Err(format!("{at}: wrote {} keys for a oneOf object", b.len()));
                }
                for f in fs {
                    match (a.get(&f.name).unwrap_or(&V::Null), b.get(&f.name)) {
                        (V::Null, None) => {}
                        (_, None) => return Err(format!("{at}.{}: not written", f.name)),
                        (x, Some(y)) => meant(w, &f.ty, x, y, &format!("{at}.{}", f.name))?,
                    }
                }
                Ok(())
            }
            (Some(Kind::Input(_)), ..) => Err(format!("{at}: meant {a}, wrote {b}")),
            (_, V::Number(x), V::Number(y)) if x.as_f64() == y.as_f64() => Ok(()),
            (_, a, b) if a == b => Ok(()),
            (_, a, b) => Err(format!("{at}: meant {a}, wrote {b}")),
        },
        (_, a, b) => Err(format!("{at}: meant {a}, wrote {b}")),
    }
}
fn encode(cl: &Client, s: &Schema, ty: &Ty, v: &V) -> Result<V, String> {
    match (ty, v) {
        (_, V::Null) => Ok(V::Null),
        (Ty::List(i, _), V::Array(l)) => l.iter().map(|x| encode(cl, s, i, x)).collect::<Result<_, _>>().map(V::Array),
        (Ty::Named(n, _), v) => match cl.enc.iter().find(|e| e.0 == n) {
            Some((_, e)) => {
                let txt = e(v);
                serde_json::from_str(&txt).map_err(|e| format!("{txt}: {e}"))
            }
            None => Ok(v.clone()),
        },
        _ => Ok(v.clone()),
    }
}

// ------------------------------------------------------------------ runs

fn nodes(j: &mut J, out: &mut Vec<*mut J>) {
    out.push(j as *mut J);
    match j {
        J::Arr(l) => l.iter_mut().for_each(|x| nodes(x, out)),
        J::Obj(l) => l.iter_mut().for_each(|x| nodes(&mut x.1, out)),
        _ => {}
    }
}
fn damage(c: &mut Ctx, j: &mut J) {
    let mut ns = vec![];
    nodes(j, &mut ns);
    let k = c.t.pick(ns.len());
    let p = ns[k];
    // the pointer comes from the tree borrowed above and is used before anything else touches it
    let n = unsafe { &mut *p };
    let objs = |j: &J| matches!(j, J::Obj(l) if !l.is_empty());
    match (c.t.pick(8), n) {
        (0, n) if objs(n) => {
            c.fault("key_lost");
            if let J::Obj(l) = n {
                let i = c.t.pick(l.len());
                l.remove(i);
            }
        }
        (1, n) if objs(n) => {
            c.fault("key_repeated");
            if let J::Obj(l) = n {
                let e = c.t.choose(l).clone();
                l.push(e);
            }
        }
        (2, n) if objs(n) => {
            c.fault("keys_moved");
            if let J::Obj(l) = n {
                c.t.shuffle(l);
            }
        }
        (3, n) if objs(n) => {
            c.fault("key_added");
            if let J::Obj(l) = n {
                if !l.iter().any(|e| e.0 == "extra") {
                    let i = c.t.pick(l.len() + 1);
                    l.insert(i, ("extra".into(), J::Num("1".into())));
                }
            }
        }
        (4, n) => {
            c.fault("value_nulled");
            *n = J::Null;
        }
        (_, n) => {
            c.fault("value_of_wrong_kind");
            *n = match c.t.pick(7) {
                0 => J::s("text"),
                1 => J::Num("1".into()),
                2 => J::Num("99999999999".into()),
                3 => J::Bool(true),
                4 => J::Arr(vec![]),
                5 => J::Obj(vec![]),
                _ => J::Num("1.5".into()),
            };
        }
    }
}

thread_local! {
    static WORLDS: Vec<World> = cases::CASES.iter().map(|case| {
        let s = crate::refparse::parse_sdl(case.sdl).ok().and_then(|x| x.model()).expect("schema of a case");
        let docs = case.docs.iter().map(|d| crate::refparse::parse(d).ok().expect("document of a case")).collect();
        World { case, s, docs }
    }).collect();
}

fn run(c: &mut Ctx) -> R {
    WORLDS.with(|ws| run_in(c, ws))
}
fn run_in(c: &mut Ctx, ws: &[World]) -> R {
    if ws.is_empty() {
        return Ok(());
    }
    let i = c.t.pick(ws.len());
    let w = &ws[i];
    c.input(w.case.sdl);
    c.note(|| w.case.docs.join("\n----\n"));
    let rounds = c.t.range(2, 6);
    let (mut broken, mut whole) = (false, false);
    for _ in 0..rounds {
        // one request: an operation (or the object a fragment is about) and the clients that ask for it
        let di = c.t.pick(w.docs.len());
        let d = &w.docs[di];
        let k = c.t.pick(d.defs.len());
        let (name, on, sels, op) = match &d.defs[k] {
            Def::Op(o) => (o.name.clone().unwrap_or_default(), w.s.root(o.kind).unwrap().to_string(), &o.sels, Some(o)),
            Def::Frag(f) => (f.name.clone(), f.on.clone(), &f.sels, None),
        };
        c.note(|| format!("case {i} doc {di} {name:?}"));
        let vars: Vec<(&VarDef, V)> = op.map(|o| o.vars.iter().map(|v| (v, typed::gen_input(&mut c.t, &w.s, &|n| w.alias(n), &v.ty, 3))).collect()).unwrap_or_default();
        let mut order: Vec<usize> = (0..w.case.clients.len()).collect();
        c.t.shuffle(&mut order);
        let ty = Ty::Named(on.clone(), true);
        let mut good = w.answer(c, d, &ty, sels);
        if op.is_none() {
            // a fragment on an abstract type is read where it is spread: an object it applies to
            let p = w.s.possible(&on);
            let x = c.t.choose(&p).clone();
            good = w.object(c, d, &x, &on, sels);
        }
        for ci in order {
            let cl = &w.case.clients[ci];
            let mini = cl.name == "miniserde";
            // the request
            let mut sent = serde_json::Map::new();
            for (v, x) in &vars {
                c.step(ci, "encode");
                let got = guard(|| encode(cl, &w.s, &v.ty, x))?;
                let got = got.or_else(|e| viol(format!("{} not json", cl.name), e))?;
                c.note(|| format!("{} ${}: {} = {x} written {got}", cl.name, v.name, v.ty.show()));
                if let Err(e) = meant(w, &v.ty, x, &got, &v.name) {
                    return viol(format!("{} writes something else", cl.name), format!("{}: {e}\n{}", v.ty.show(), w.case.sdl));
                }
                c.eval();
                if !got.is_null() || v.ty.required() || c.t.chance(1, 2) {
                    sent.insert(v.name.clone(), got);
                }
            }
            if let (Some(o), false) = (op, sent.is_empty()) {
                let bad = crate::vars::judge(&w.s, o, &sent);
                ensure!(bad.is_empty(), format!("{} writes what the specification refuses", cl.name), "{:?}\n{}\n{}", bad, V::Object(sent.clone()), w.case.sdl);
                let real = admit(w, di, o, &sent)?;
                ensure!(real.is_empty(), format!("{} writes what bluejay refuses", cl.name), "{:?}\n{}\n{}", real, V::Object(sent), w.case.sdl);
                c.eval();
            }
            // the answer, until it arrives whole
            let dec = cl.dec.iter().find(|x| x.doc == di && x.name == name).expect("decoder");
            for attempt in 0..4 {
                let mut j = good.clone();
                let mut cut = None;
                if attempt < 3 && c.f(1, 2) {
                    if c.t.chance(1, 3) {
                        cut = Some(());
                    } else {
                        for _ in 0..c.t.range(1, 2) {
                            damage(c, &mut j);
                        }
                    }
                }
                let mut txt = String::new();
                j.write(&mut c.t, &mut txt);
                let want = if cut.is_some() {
                    c.fault("connection_cut");
                    let n = txt.trim_end().chars().count();
                    let k = c.t.pick(n);
                    txt = txt.chars().take(k).collect();
                    Exp::No
                } else if attempt < 3 && c.f(1, 30) {
                    c.fault("trailing_bytes");
                    txt.push_str(*c.t.choose(&["}", "]", " x", "{}"]));
                    Exp::No
                } else {
                    w.read(d, &ty, &name_of(op, &name), sels, &j, mini)
                };
                c.step(ci, "decode");
                c.input(&txt);
                for (how, f) in [("text", Some(dec.text)), ("value", dec.value)] {
                    let Some(f) = f else { continue };
                    let got = guard(|| f(&txt))?;
                    c.eval();
                    c.obs(&format!("{} {how} {got:?}", cl.name));
                    let tree = match &got {
                        Ok(s) => {
                            let cs: Vec<char> = s.chars().collect();
                            let mut p = P { b: &cs, i: 0 };
                            match p.val() {
                                Some(t) if p.i == cs.len() => Some(t),
                                _ => return viol("unreadable", format!("{s} at {}", p.i)),
                            }
                        }
                        Err(()) => None,
                    };
                    // a Value has one entry per key, whatever the text said
                    let want = if how == "value" && cut.is_none() && has_repeated(&j) { Exp::Any } else { want.clone() };
                    let ok = match (&want, &tree) {
                        (Exp::Any, _) => true,
                        (Exp::No, t) => t.is_none(),
                        (Exp::Is(a), Some(b)) => same(a, b),
                        (Exp::May(a), Some(b)) => same(a, b),
                        (Exp::May(_), None) => true,
                        (Exp::Is(_), None) => false,
                    };
                    if !ok {
                        let key = match (&want, &tree) {
                            (Exp::No, _) => "reads what is not there",
                            (_, None) => "refuses a good answer",
                            _ => "reads something else",
                        };
                        return viol(format!("{} {key}", cl.name), format!("{name:?} {txt}\nread {got:?}\nexpected {want:?}\n{}\n{}", w.case.sdl, w.case.docs[di]));
                    }
                }
                if j == good && cut.is_none() && matches!(want, Exp::Is(_)) {
                    whole |= broken;
                    break;
                }
                broken = true;
            }
        }
    }
    c.nontrivial = whole;
    Ok(())
}
fn name_of(op: Option<&Op>, name: &str) -> String {
    match op {
        Some(o) if o.name.is_none() => "Root".into(),
        _ => name.into(),
    }
}
fn has_repeated(j: &J) -> bool {
    match j {
        J::Obj(l) => l.iter().enumerate().any(|(i, e)| l[..i].iter().any(|x| x.0 == e.0) || has_repeated(&e.1)),
        J::Arr(l) => l.iter().any(has_repeated),
        _ => false,
    }
}

fn admit(w: &World, di: usize, o: &Op, vars: &crate::vars::Vars) -> R<Vec<(String, &'static str, String)>> {
    use bluejay_parser::ast::{executable::ExecutableDocument, Parse};
    let Ok(e) = ExecutableDocument::parse(w.case.docs[di]) else { return viol("document refused", w.case.docs[di]) };
    crate::world::with_schema(w.case.sdl, |rs| super::s08::admit(&e, rs, o.name.as_deref(), vars).or_else(|e| viol("operation not found", e)))
}

fn known_conditional() -> Option<String> {
    use cases::known::{mi, se};
    let a = serde_json::from_str::<se::query::Q>("{}").is_err();
    let b = rt::dec_miniserde::<mi::query::R>("{}").is_err();
    (a || b).then(|| "answers without a field that @skip or @include left out are refused".to_string())
}
