//! Reference lexer and recursive-descent parser for GraphQL documents, written from the language
//! specification. It shares nothing with bluejay's lexer or parser.
use crate::model::*;

#[derive(Debug, Clone, PartialEq)]
pub enum K {
    P(&'static str),
    Name(String),
    Var(String),
    Int(i32),
    Float(f64),
    Str(String),
    Eof,
}
#[derive(Debug, Clone, PartialEq)]
pub struct Tok {
    pub k: K,
    pub start: usize,
    pub end: usize,
}
#[derive(Debug, Clone, PartialEq)]
pub enum Bad {
    /// byte offsets of the token that is none and of what spoils it
    Lex(usize, usize),
    /// byte offset
    Syntax(usize),
}

fn name_start(c: char) -> bool {
    c.is_ascii_alphabetic() || c == '_'
}
fn name_cont(c: char) -> bool {
    c.is_ascii_alphanumeric() || c == '_'
}

/// `ruby`: what the `graphql_ruby_compatibility` option documents itself to relax: a number may be
/// followed directly by a name, and a quoted string may contain line breaks.
pub fn lex(src: &str, ruby: bool) -> Result<Vec<Tok>, Bad> {
    let cs: Vec<(usize, char)> = src.char_indices().collect();
    let at = |i: usize| cs.get(i).map(|x| x.1);
    let off = |i: usize| cs.get(i).map(|x| x.0).unwrap_or(src.len());
    let mut i = 0;
    let mut out = vec![];
    while let Some(c) = at(i) {
        let st = i;
        match c {
            '\u{feff}' | ' ' | '\t' | '\n' | '\r' | ',' => {
                i += 1;
                continue;
            }
            '#' => {
                while !matches!(at(i), None | Some('\n') | Some('\r')) {
                    i += 1;
                }
                continue;
            }
            _ => {}
        }
        let k = if let Some(p) = ["!", "&", "(", ")", ":", "=", "@", "[", "]", "{", "}", "|"].iter().find(|p| p.starts_with(c)) {
            i += 1;
            K::P(p)
        } else if c == '.' {
            if at(i + 1) == Some('.') && at(i + 2) == Some('.') {
                i += 3;
                K::P("...")
            } else {
                return Err(Bad::Lex(off(st), off(i)));
            }
        } else if c == '$' {
            if !at(i + 1).is_some_and(name_start) {
                return Err(Bad::Lex(off(st), off(i)));
            }
            i += 1;
            let mut n = String::new();
            while let Some(c) = at(i).filter(|c| name_cont(*c)) {
                n.push(c);
                i += 1;
            }
            K::Var(n)
        } else if name_start(c) {
            let mut n = String::new();
            while let Some(c) = at(i).filter(|c| name_cont(*c)) {
                n.push(c);
                i += 1;
            }
            K::Name(n)
        } else if c == '-' || c.is_ascii_digit() {
            let mut s = String::new();
            if c == '-' {
                s.push('-');
                i += 1;
            }
            match at(i) {
                Some('0') => {
                    s.push('0');
                    i += 1;
                }
                Some(d) if d.is_ascii_digit() => {
                    while let Some(d) = at(i).filter(|c| c.is_ascii_digit()) {
                        s.push(d);
                        i += 1;
                    }
                }
                _ => return Err(Bad::Lex(off(st), off(st))),
            }
            let mut float = false;
            if at(i) == Some('.') && at(i + 1).is_some_and(|c| c.is_ascii_digit()) {
                float = true;
                s.push('.');
                i += 1;
                while let Some(d) = at(i).filter(|c| c.is_ascii_digit()) {
                    s.push(d);
                    i += 1;
                }
            }
            if matches!(at(i), Some('e') | Some('E')) {
                let mut j = i + 1;
                let mut e = String::from("e");
                if let Some(sg) = at(j).filter(|c| *c == '+' || *c == '-') {
                    e.push(sg);
                    j += 1;
                }
                if at(j).is_some_and(|c| c.is_ascii_digit()) {
                    float = true;
                    while let Some(d) = at(j).filter(|c| c.is_ascii_digit()) {
                        e.push(d);
                        j += 1;
                    }
                    s += &e;
                    i = j;
                }
            }
            if !ruby && at(i).is_some_and(|c| name_cont(c) || c == '.') {
                return Err(Bad::Lex(off(st), off(st)));
            }
            if float {
                match s.parse::<f64>() {
                    Ok(f) if f.is_finite() => K::Float(f),
                    _ => return Err(Bad::Lex(off(st), off(st))),
                }
            } else {
                match s.parse::<i32>() {
                    Ok(v) => K::Int(v),
                    Err(_) => return Err(Bad::Lex(off(st), off(st))),
                }
            }
        } else if c == '"' {
            if at(i + 1) == Some('"') && at(i + 2) == Some('"') {
                i += 3;
                let mut raw = String::new();
                loop {
                    match at(i) {
                        None => return Err(Bad::Lex(off(st), off(st))),
                        Some('"') if at(i + 1) == Some('"') && at(i + 2) == Some('"') => {
                            i += 3;
                            break;
                        }
                        Some('\\') if at(i + 1) == Some('"') && at(i + 2) == Some('"') && at(i + 3) == Some('"') => {
                            raw.push_str("\u{0}Q");
                            i += 4;
                        }
                        Some('\0') => {
                            raw.push_str("\u{0}N");
                            i += 1;
                        }
                        Some(c) => {
                            raw.push(c);
                            i += 1;
                        }
                    }
                }
                K::Str(block_value(&raw).replace("\u{0}Q", "\"\"\"").replace("\u{0}N", "\u{0}"))
            } else {
                i += 1;
                let mut s = String::new();
                let mut bad = None;
                loop {
                    match at(i) {
                        None => return Err(Bad::Lex(off(st), bad.unwrap_or(off(st)))),
                        Some('"') => {
                            i += 1;
                            break;
                        }
                        Some('\n') | Some('\r') if !ruby => return Err(Bad::Lex(off(st), bad.unwrap_or(off(i)))),
                        Some('\\') => {
                            let p = i;
                            i += 1;
                            let ch = match at(i) {
                                Some('"') => '"',
                                Some('\\') => '\\',
                                Some('/') => '/',
                                Some('b') => '\u{8}',
                                Some('f') => '\u{c}',
                                Some('n') => '\n',
                                Some('r') => '\r',
                                Some('t') => '\t',
                                Some('u') => {
                                    let hex4 = |i: usize| -> Option<u32> {
                                        let h: String = (0..4).filter_map(|k| at(i + k)).collect();
                                        if h.len() == 4 && h.chars().all(|c| c.is_ascii_hexdigit()) {
                                            u32::from_str_radix(&h, 16).ok()
                                        } else {
                                            None
                                        }
                                    };
                                    if at(i + 1) == Some('{') {
                                        let mut j = i + 2;
                                        let mut h = String::new();
                                        while let Some(c) = at(j).filter(|c| c.is_ascii_hexdigit()) {
                                            h.push(c);
                                            j += 1;
                                        }
                                        if at(j) != Some('}') || h.is_empty() {
                                            return Err(Bad::Lex(off(st), bad.unwrap_or(off(p))));
                                        }
                                        i = j;
                                        match u32::from_str_radix(&h, 16).ok().and_then(char::from_u32).filter(|_| h.len() <= 8) {
                                            Some(c) => c,
                                            None => {
                                                bad.get_or_insert(off(p));
                                                '?'
                                            }
                                        }
                                    } else {
                                        match hex4(i + 1) {
                                            None => return Err(Bad::Lex(off(st), bad.unwrap_or(off(p)))),
                                            Some(v) if (0xD800..0xDC00).contains(&v) => {
                                                let lo = if at(i + 5) == Some('\\') && at(i + 6) == Some('u') { hex4(i + 7) } else { None };
                                                match lo {
                                                    Some(l) if (0xDC00..0xE000).contains(&l) => {
                                                        i += 10;
                                                        char::from_u32(0x10000 + ((v - 0xD800) << 10) + (l - 0xDC00)).unwrap()
                                                    }
                                                    _ => {
                                                        bad.get_or_insert(off(p));
                                                        i += 4;
                                                        '?'
                                                    }
                                                }
                                            }
                                            Some(v) => {
                                                i += 4;
                                                match char::from_u32(v) {
                                                    Some(c) => c,
                                                    None => {
                                                        bad.get_or_insert(off(p));
                                                        '?'
                                                    }
                                                }
                                            }
                                        }
                                    }
                                }
                                _ => return Err(Bad::Lex(off(st), bad.unwrap_or(off(p)))),
                            };
                            i += 1;
                            s.push(ch);
                        }
                        Some(c) => {
                            s.push(c);
                            i += 1;
                        }
                    }
                }
                if let Some(b) = bad {
                    return Err(Bad::Lex(off(st), b));
                }
                K::Str(s)
            }
        } else {
            return Err(Bad::Lex(off(st), off(i)));
        };
        out.push(Tok { k, start: off(st), end: off(i) });
    }
    Ok(out)
}

/// BlockStringValue() of the specification
pub fn block_value(raw: &str) -> String {
    let norm = raw.replace("\r\n", "\n").replace('\r', "\n");
    let mut lines: Vec<String> = norm.split('\n').map(String::from).collect();
    let ws = |c: char| c == ' ' || c == '\t';
    let mut common: Option<usize> = None;
    for l in &lines[1..] {
        let ind = l.chars().take_while(|c| ws(*c)).count();
        if ind < l.chars().count() && common.map(|c| ind < c).unwrap_or(true) {
            common = Some(ind);
        }
    }
    if let Some(n) = common {
        for l in lines.iter_mut().skip(1) {
            *l = l.chars().skip(n).collect();
        }
    }
    let blank = |l: &String| l.chars().all(ws);
    while lines.first().is_some_and(blank) {
        lines.remove(0);
    }
    while lines.last().is_some_and(blank) {
        lines.pop();
    }
    lines.join("\n")
}

struct P {
    t: Vec<Tok>,
    i: usize,
    end: usize,
}
type Res<T> = Result<T, Bad>;

impl P {
    fn pk(&self) -> &K {
        self.t.get(self.i).map(|t| &t.k).unwrap_or(&K::Eof)
    }
    fn bad<T>(&self) -> Res<T> {
        Err(Bad::Syntax(self.t.get(self.i).map(|t| t.start).unwrap_or(self.end)))
    }
    fn is(&self, p: &str) -> bool {
        matches!(self.pk(), K::P(x) if *x == p)
    }
    fn eat(&mut self, p: &str) -> bool {
        let b = self.is(p);
        if b {
            self.i += 1;
        }
        b
    }
    fn need(&mut self, p: &str) -> Res<()> {
        if self.eat(p) {
            Ok(())
        } else {
            self.bad()
        }
    }
    fn kw(&self, k: &str) -> bool {
        matches!(self.pk(), K::Name(n) if n == k)
    }
    fn eat_kw(&mut self, k: &str) -> bool {
        let b = self.kw(k);
        if b {
            self.i += 1;
        }
        b
    }
    fn name(&mut self) -> Res<String> {
        match self.pk().clone() {
            K::Name(n) => {
                self.i += 1;
                Ok(n)
            }
            _ => self.bad(),
        }
    }
    fn value(&mut self, konst: bool) -> Res<Val> {
        let v = match self.pk().clone() {
            K::Var(n) if !konst => Val::Var(n),
            K::Int(i) => Val::Int(i),
            K::Float(f) => Val::Float(f),
            K::Str(s) => Val::Str(s),
            K::Name(n) => match n.as_str() {
                "null" => Val::Null,
                "true" => Val::Bool(true),
                "false" => Val::Bool(false),
                _ => Val::Enum(n),
            },
            K::P("[") => {
                self.i += 1;
                let mut l = vec![];
                while !self.eat("]") {
                    l.push(self.value(konst)?);
                }
                return Ok(Val::List(l));
            }
            K::P("{") => {
                self.i += 1;
                let mut l = vec![];
                while !self.eat("}") {
                    let n = self.name()?;
                    self.need(":")?;
                    l.push((n, self.value(konst)?));
                }
                return Ok(Val::Obj(l));
            }
            _ => return self.bad(),
        };
        self.i += 1;
        Ok(v)
    }
    fn args(&mut self, konst: bool) -> Res<Vec<(String, Val)>> {
        let mut o = vec![];
        if self.eat("(") {
            loop {
                let n = self.name()?;
                self.need(":")?;
                o.push((n, self.value(konst)?));
                if self.eat(")") {
                    break;
                }
            }
        }
        Ok(o)
    }
    fn dirs(&mut self, konst: bool) -> Res<Dirs> {
        let mut o = vec![];
        while self.eat("@") {
            let name = self.name()?;
            let args = self.args(konst)?;
            o.push(Dir { name, args });
        }
        Ok(o)
    }
    fn ty(&mut self) -> Res<Ty> {
        if self.eat("[") {
            let i = self.ty()?;
            self.need("]")?;
            let r = self.eat("!");
            Ok(Ty::List(Box::new(i), r))
        } else {
            let n = self.name()?;
            let r = self.eat("!");
            Ok(Ty::Named(n, r))
        }
    }
    fn sels(&mut self) -> Res<Vec<Sel>> {
        self.need("{")?;
        let mut o = vec![];
        loop {
            o.push(self.sel()?);
            if self.eat("}") {
                return Ok(o);
            }
        }
    }
    fn sel(&mut self) -> Res<Sel> {
        if self.eat("...") {
            if self.eat_kw("on") {
                let n = self.name()?;
                let d = self.dirs(false)?;
                return Ok(Sel::Inline(Some(n), d, self.sels()?));
            }
            if let K::Name(n) = self.pk().clone() {
                self.i += 1;
                return Ok(Sel::Spread(n, self.dirs(false)?));
            }
            let d = self.dirs(false)?;
            return Ok(Sel::Inline(None, d, self.sels()?));
        }
        let mut name = self.name()?;
        let mut alias = None;
        if self.eat(":") {
            alias = Some(std::mem::replace(&mut name, self.name()?));
        }
        let args = self.args(false)?;
        let dirs = self.dirs(false)?;
        let sels = if self.is("{") { self.sels()? } else { vec![] };
        Ok(Sel::Field(FieldSel { alias, name, args, dirs, sels }))
    }
    fn def(&mut self) -> Res<Def> {
        if self.is("{") {
            return Ok(Def::Op(Op { kind: OpKind::Query, shorthand: true, name: None, vars: vec![], dirs: vec![], sels: self.sels()? }));
        }
        for kind in [OpKind::Query, OpKind::Mutation, OpKind::Subscription] {
            if self.eat_kw(kind.kw()) {
                let name = if let K::Name(_) = self.pk() { Some(self.name()?) } else { None };
                let mut vars = vec![];
                if self.eat("(") {
                    loop {
                        let K::Var(name) = self.pk().clone() else { return self.bad() };
                        self.i += 1;
                        self.need(":")?;
                        let ty = self.ty()?;
                        let default = if self.eat("=") { Some(self.value(true)?) } else { None };
                        let dirs = self.dirs(true)?;
                        vars.push(VarDef { name, ty, default, dirs });
                        if self.eat(")") {
                            break;
                        }
                    }
                }
                let dirs = self.dirs(false)?;
                return Ok(Def::Op(Op { kind, shorthand: false, name, vars, dirs, sels: self.sels()? }));
            }
        }
        if self.eat_kw("fragment") {
            if self.kw("on") {
                return self.bad();
            }
            let name = self.name()?;
            if !self.eat_kw("on") {
                return self.bad();
            }
            let on = self.name()?;
            let dirs = self.dirs(false)?;
            return Ok(Def::Frag(Frag { name, on, dirs, sels: self.sels()? }));
        }
        self.bad()
    }

    // ---- type system
    fn desc(&mut self) -> Option<String> {
        if let K::Str(s) = self.pk().clone() {
            self.i += 1;
            Some(s)
        } else {
            None
        }
    }
    fn in_val(&mut self) -> Res<InVal> {
        let desc = self.desc();
        let name = self.name()?;
        self.need(":")?;
        let ty = self.ty()?;
        let default = if self.eat("=") { Some(self.value(true)?) } else { None };
        let dirs = self.dirs(true)?;
        Ok(InVal { name, desc, ty, default, dirs })
    }
    fn arg_defs(&mut self) -> Res<Vec<InVal>> {
        let mut o = vec![];
        if self.eat("(") {
            loop {
                o.push(self.in_val()?);
                if self.eat(")") {
                    break;
                }
            }
        }
        Ok(o)
    }
    fn fields(&mut self) -> Res<Vec<FieldDef>> {
        self.need("{")?;
        let mut o = vec![];
        loop {
            o.push(self.field_def()?);
            if self.eat("}") {
                return Ok(o);
            }
        }
    }
    fn field_def(&mut self) -> Res<FieldDef> {
        let desc = self.desc();
        let name = self.name()?;
        let args = self.arg_defs()?;
        self.need(":")?;
        let ty = self.ty()?;
        let dirs = self.dirs(true)?;
        Ok(FieldDef { name, desc, args, ty, dirs })
    }
    fn enum_val(&mut self) -> Res<EnumVal> {
        let desc = self.desc();
        if self.kw("null") || self.kw("true") || self.kw("false") {
            return self.bad();
        }
        let name = self.name()?;
        let dirs = self.dirs(true)?;
        Ok(EnumVal { name, desc, dirs })
    }
    fn impls(&mut self) -> Res<Vec<String>> {
        let mut o = vec![];
        if self.eat_kw("implements") {
            self.eat("&");
            loop {
                o.push(self.name()?);
                if !self.eat("&") {
                    break;
                }
            }
        }
        Ok(o)
    }
    fn sdl_def(&mut self, s: &mut Sdl) -> Res<()> {
        let desc = self.desc();
        if self.eat_kw("schema") {
            let dirs = self.dirs(true)?;
            self.need("{")?;
            let mut roots = vec![];
            loop {
                let k = self.name()?;
                if !["query", "mutation", "subscription"].contains(&k.as_str()) {
                    self.i -= 1;
                    return self.bad();
                }
                self.need(":")?;
                roots.push((k, self.name()?));
                if self.eat("}") {
                    break;
                }
            }
            s.schemas.push((desc, dirs, roots));
            return Ok(());
        }
        if self.eat_kw("directive") {
            self.need("@")?;
            let name = self.name()?;
            let args = self.arg_defs()?;
            let repeatable = self.eat_kw("repeatable");
            if !self.eat_kw("on") {
                return self.bad();
            }
            self.eat("|");
            let mut locs = vec![];
            loop {
                let l = self.name()?;
                if !LOCATIONS.contains(&l.as_str()) {
                    self.i -= 1;
                    return self.bad();
                }
                locs.push(l);
                if !self.eat("|") {
                    break;
                }
            }
            s.directives.push(DirDef { name, desc, args, repeatable, locs });
            return Ok(());
        }
        let kw = match self.pk() {
            K::Name(n) => n.clone(),
            _ => return self.bad(),
        };
        if !["scalar", "type", "interface", "union", "enum", "input"].contains(&kw.as_str()) {
            return self.bad();
        }
        self.i += 1;
        let name = self.name()?;
        let (mut dirs, kind);
        match kw.as_str() {
            "scalar" => {
                dirs = self.dirs(true)?;
                kind = Kind::Scalar;
            }
            "type" | "interface" => {
                let i = self.impls()?;
                dirs = self.dirs(true)?;
                let f = self.fields()?;
                kind = if kw == "type" { Kind::Object(i, f) } else { Kind::Interface(i, f) };
            }
            "union" => {
                dirs = self.dirs(true)?;
                self.need("=")?;
                self.eat("|");
                let mut m = vec![];
                loop {
                    m.push(self.name()?);
                    if !self.eat("|") {
                        break;
                    }
                }
                kind = Kind::Union(m);
            }
            "enum" => {
                dirs = self.dirs(true)?;
                self.need("{")?;
                let mut v = vec![];
                loop {
                    v.push(self.enum_val()?);
                    if self.eat("}") {
                        break;
                    }
                }
                kind = Kind::Enum(v);
            }
            _ => {
                dirs = self.dirs(true)?;
                self.need("{")?;
                let mut v = vec![];
                loop {
                    v.push(self.in_val()?);
                    if self.eat("}") {
                        break;
                    }
                }
                kind = Kind::Input(v);
            }
        }
        dirs = std::mem::take(&mut dirs);
        s.types.push(TypeDef { name, desc, dirs, kind });
        Ok(())
    }
}

pub const LOCATIONS: [&str; 19] = [
    "QUERY", "MUTATION", "SUBSCRIPTION", "FIELD", "FRAGMENT_DEFINITION", "FRAGMENT_SPREAD", "INLINE_FRAGMENT", "VARIABLE_DEFINITION", "SCHEMA", "SCALAR", "OBJECT", "FIELD_DEFINITION", "ARGUMENT_DEFINITION", "INTERFACE",
    "UNION", "ENUM", "ENUM_VALUE", "INPUT_OBJECT", "INPUT_FIELD_DEFINITION",
];

#[derive(Debug, Clone, PartialEq, Default)]
pub struct Sdl {
    pub schemas: Vec<(Option<String>, Dirs, Vec<(String, String)>)>,
    pub types: Vec<TypeDef>,
    pub directives: Vec<DirDef>,
}
impl Sdl {
    /// the schema model, when the document has at most one schema block with unambiguous roots
    pub fn model(&self) -> Option<Schema> {
        let has = |n: &str| self.types.iter().any(|t| t.name == n).then(|| n.to_string());
        let mut s = Schema { desc: None, dirs: vec![], explicit: false, query: String::new(), mutation: None, subscription: None, types: self.types.clone(), directives: self.directives.clone() };
        match self.schemas.as_slice() {
            [] => {
                s.query = has("Query")?;
                s.mutation = has("Mutation");
                s.subscription = has("Subscription");
            }
            [(d, dirs, roots)] => {
                s.desc = d.clone();
                s.dirs = dirs.clone();
                s.explicit = true;
                let get = |k: &str| roots.iter().find(|r| r.0 == k).map(|r| r.1.clone());
                s.query = get("query")?;
                s.mutation = get("mutation");
                s.subscription = get("subscription");
            }
            _ => return None,
        }
        Some(s)
    }
}

pub fn parse(src: &str) -> Result<Doc, Bad> {
    parse_with(src, false)
}
pub fn parse_with(src: &str, ruby: bool) -> Result<Doc, Bad> {
    let t = lex(src, ruby)?;
    let mut p = P { t, i: 0, end: src.len() };
    let mut d = Doc::default();
    loop {
        d.defs.push(p.def()?);
        if p.pk() == &K::Eof {
            return Ok(d);
        }
    }
}
pub fn parse_sdl(src: &str) -> Result<Sdl, Bad> {
    parse_sdl_with(src, false)
}
pub fn parse_sdl_with(src: &str, ruby: bool) -> Result<Sdl, Bad> {
    let t = lex(src, ruby)?;
    let mut p = P { t, i: 0, end: src.len() };
    let mut s = Sdl::default();
    loop {
        p.sdl_def(&mut s)?;
        if p.pk() == &K::Eof {
            return Ok(s);
        }
    }
}

/// Pieces of documents that can be parsed on their own.
#[derive(Debug, Clone, Copy, PartialEq)]
pub enum Part {
    Value,
    Const,
    Args,
    Dirs,
    ConstDirs,
    VarType,
    Sels,
    Field,
    Op,
    Frag,
    InVal,
    FieldDef,
    EnumVal,
    ArgDefs,
    DirDef,
    Scalar,
    Object,
    Interface,
    Union,
    Enum,
    Input,
}
pub const PARTS: [Part; 21] = [
    Part::Value,
    Part::Const,
    Part::Args,
    Part::Dirs,
    Part::ConstDirs,
    Part::VarType,
    Part::Sels,
    Part::Field,
    Part::Op,
    Part::Frag,
    Part::InVal,
    Part::FieldDef,
    Part::EnumVal,
    Part::ArgDefs,
    Part::DirDef,
    Part::Scalar,
    Part::Object,
    Part::Interface,
    Part::Union,
    Part::Enum,
    Part::Input,
];

/// The meaning of the part that begins at token `from`, and the number of the token after it.
pub fn part_at(k: Part, toks: &[Tok], end: usize, from: usize) -> Result<(String, usize), Bad> {
    let mut p = P { t: toks.to_vec(), i: from, end };
    let m = match k {
        Part::Value => format!("{:?}", p.value(false)?),
        Part::Const => format!("{:?}", p.value(true)?),
        Part::Args => {
            if !p.is("(") {
                return p.bad();
            }
            format!("{:?}", p.args(false)?)
        }
        Part::Dirs => format!("{:?}", p.dirs(false)?),
        Part::ConstDirs => format!("{:?}", p.dirs(true)?),
        Part::VarType => format!("{:?}", p.ty()?),
        Part::Sels => format!("{:?}", p.sels()?),
        Part::Field => {
            if p.is("...") {
                return p.bad();
            }
            format!("{:?}", p.sel()?)
        }
        Part::Op | Part::Frag => {
            if (k == Part::Frag) != p.kw("fragment") {
                return p.bad();
            }
            format!("{:?}", p.def()?)
        }
        Part::InVal => format!("{:?}", p.in_val()?),
        Part::FieldDef => format!("{:?}", p.field_def()?),
        Part::EnumVal => format!("{:?}", p.enum_val()?),
        Part::ArgDefs => {
            if !p.is("(") {
                return p.bad();
            }
            format!("{:?}", p.arg_defs()?)
        }
        Part::DirDef | Part::Scalar | Part::Object | Part::Interface | Part::Union | Part::Enum | Part::Input => {
            let kw = match k {
                Part::DirDef => "directive",
                Part::Scalar => "scalar",
                Part::Object => "type",
                Part::Interface => "interface",
                Part::Union => "union",
                Part::Enum => "enum",
                _ => "input",
            };
            let described = p.desc().is_some();
            if !p.kw(kw) {
                return p.bad();
            }
            p.i -= described as usize;
            let mut s = Sdl::default();
            p.sdl_def(&mut s)?;
            if k == Part::DirDef {
                format!("{:?}", s.directives[0])
            } else {
                format!("{:?}", s.types[0])
            }
        }
    };
    Ok((m, p.i))
}
