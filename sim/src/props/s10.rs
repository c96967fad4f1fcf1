//! S10: documents arriving through a faulty transport are accepted exactly when the bytes that
//! arrived are a GraphQL document, and mean exactly what those bytes say.
use super::Prop;
use crate::ctx::{viol, Ctx, R};
use crate::gen::*;
use crate::model::*;
use crate::net::*;
use crate::refparse::{self, Bad, Part};
use crate::snap;
use crate::world::*;
use bluejay_parser::ast::definition::{DefaultContext, DefinitionDocument, SchemaDefinition};
use bluejay_parser::ast::executable::ExecutableDocument;
use bluejay_parser::ast::{Parse, ParseOptions};

pub const PROP: Prop = Prop {
    id: "S10",
    run,
    known: &[],
    quick_secs: 40,
    thorough_secs: 600,
    min_secs: 40,
    rule: "A run interleaves 2-4 client sessions that send generated operations, schema documents and parts of either (values, directives, selections, fields, definitions) as packets over a simulated transport which loses, duplicates, reorders, cuts, corrupts and misroutes packets. Non-trivial: at least one message reached the gateway and was compared with the reference parser.",
    real: "bluejay-parser lexer, parser, AST, error conversion",
    stub: "transport, clients, gateway loop",
    assumptions: "the reference grammar is the October 2021 grammar plus the draft's braced unicode escapes and unrestricted source characters; `$` and its name are one token; no type system extensions",
};

pub fn doc_cfg(c: &mut Ctx) -> DocCfg {
    DocCfg {
        max_depth: c.t.range(2, 4),
        max_sels: c.t.range(1, 4),
        max_ops: c.t.range(1, 3),
        max_frags: c.t.range(0, 3),
        weird_strings: c.t.chance(1, 2),
        budget: *c.t.choose(&[12, 30, 60]),
        ..Default::default()
    }
}

/// line/column of a byte offset, GraphQL line terminators
fn locate(src: &str, off: usize) -> (usize, usize) {
    let mut line = 1;
    let mut col = 1;
    let mut prev_cr = false;
    for (i, ch) in src.char_indices() {
        if i >= off {
            break;
        }
        if ch == '\n' && prev_cr {
            // second half of \r\n
            prev_cr = false;
            continue;
        }
        if ch == '\n' || ch == '\r' {
            line += 1;
            col = 1;
            prev_cr = ch == '\r';
        } else {
            col += 1;
            prev_cr = false;
        }
    }
    (line, col)
}
pub fn odd_newlines(src: &str) -> bool {
    src.chars().any(|c| matches!(c, '\u{b}' | '\u{c}' | '\u{85}' | '\u{2028}' | '\u{2029}'))
}

/// every rejection must be reportable to the client
pub fn reportable(src: &str, mk: &dyn Fn() -> Vec<bluejay_parser::Error>, bad: Option<Bad>, sdl: bool) -> R {
    let n = mk().len();
    ensure!(n > 0, "rejected without an error", "rejected with no error\n{src:?}");
    let human = bluejay_parser::Error::format_errors(src, Some("f"), mk());
    ensure!(!human.trim().is_empty(), "empty report", "{src:?}");
    let g = bluejay_parser::Error::into_graphql_errors(src, mk());
    ensure!(g.len() >= n, "error lost in conversion", "{n} errors became {} GraphQL errors: {g:?}\n{src:?}", g.len());
    let lines = src.split(['\n', '\r']).count();
    for e in &g {
        ensure!(!e.message.is_empty(), "empty message", "{g:?}\n{src:?}");
        for l in &e.locations {
            ensure!(l.line >= 1 && l.col >= 1, "location", "location {l:?} is not one-based: {g:?}\n{src:?}");
            if !odd_newlines(src) {
                ensure!(l.line <= lines, "location", "location {l:?} is outside the document: {g:?}\n{src:?}");
                let text = src.replace("\r\n", "\n").replace('\r', "\n");
                let line = text.split('\n').nth(l.line - 1).unwrap_or("");
                ensure!(l.col <= line.chars().count() + 3, "location", "location {l:?} is outside its line {line:?}: {g:?}\n{src:?}");
            }
        }
    }
    if let (Some(Bad::Lex(from, to)), false) = (&bad, odd_newlines(src)) {
        // anything from the start of the token to the end of the escape that spoils it
        let to = src.char_indices().map(|x| x.0).filter(|o| o >= to).nth(12).unwrap_or(src.len());
        let at = g[0].locations.first().map(|l| (l.line, l.col));
        ensure!(at.is_some_and(|at| locate(src, *from) <= at && at <= locate(src, to)), "lexical error location", "reported at {at:?}, the first bad token is {:?}: {g:?}\n{src:?}", &src[*from..to]);
    }
    if let (Some(Bad::Syntax(off)), false) = (bad, odd_newlines(src)) {
        if let Some(l) = g[0].locations.first() {
            let want = locate(src, off);
            // a description and the keyword that does not follow it are one thing
            let described = sdl && crate::refparse::lex(src, true).is_ok_and(|ts| {
                let before = ts.iter().rev().find(|t| t.start < off);
                before.is_some_and(|t| src[t.start..].starts_with('"') && locate(src, t.start) == (l.line, l.col))
            });
            if off < src.len() && !described {
                ensure!((l.line, l.col) == want, "syntax error location", "reported at {}:{}, first unacceptable token at {}:{}: {g:?}\n{src:?}", l.line, l.col, want.0, want.1);
            }
        }
    }
    Ok(())
}

fn opts(ruby: bool) -> ParseOptions {
    ParseOptions { graphql_ruby_compatibility: ruby }
}

pub fn check_exec(c: &mut Ctx, src: &str, ruby: bool) -> R<Option<Doc>> {
    let want = refparse::parse_with(src, ruby);
    let parse = || ExecutableDocument::parse_with_options(src, opts(ruby));
    c.eval();
    if ruby && want.is_ok() && refparse::parse(src).is_err() {
        c.probe("relaxed");
    }
    match (parse(), want) {
        (Ok(e), Ok(d)) => {
            c.probe("accepted");
            let got = snap::doc(&e);
            let d = snap::normal_doc(&d);
            ensure!(got == d, "document misread", "document read as\n{}\nbut the text says\n{}\ntext: {src:?}", gql(&got), gql(&d));
            Ok(Some(d))
        }
        (Err(_), Err(b)) => {
            c.probe("rejected");
            let lexical = matches!(b, Bad::Lex(..));
            if lexical {
                c.probe("rejected_lexical");
            }
            reportable(src, &|| parse().err().unwrap_or_default(), Some(b), false)?;
            Ok(None)
        }
        (Ok(_), Err(b)) => viol("accepted malformed document", format!("{b:?}\n{src:?}")),
        (Err(e), Ok(_)) => viol("rejected well-formed document", format!("{}\n{src:?}", parser_errs(src, e))),
    }
}

fn check_sdl(c: &mut Ctx, src: &str, ruby: bool) -> R {
    let want = refparse::parse_sdl_with(src, ruby);
    let parse = || DefinitionDocument::<DefaultContext>::parse_with_options(src, opts(ruby));
    c.eval();
    let parsed = parse();
    match (parsed, want) {
        (Ok(doc), Ok(sdl)) => {
            c.probe("sdl_accepted");
            match SchemaDefinition::try_from(&doc) {
                Ok(s) => {
                    if let Some(m) = sdl.model() {
                        let got = snap::schema(&s);
                        let mut m = snap::normal_schema(&m);
                        let mut got = got;
                        m.types.sort_by(|a, b| a.name.cmp(&b.name));
                        got.types.sort_by(|a, b| a.name.cmp(&b.name));
                        m.directives.sort_by(|a, b| a.name.cmp(&b.name));
                        got.directives.sort_by(|a, b| a.name.cmp(&b.name));
                        // user redefinitions of built-in directives and scalars replace the built-in ones
                        let redefines = m.types.iter().any(|t| is_builtin_scalar(&t.name)) || m.directives.iter().any(|d| crate::refval::builtin_dirs().iter().any(|b| b.name == d.name));
                        if !redefines {
                            ensure!(got == m, "schema misread", "schema read as\n{}\nbut the text says\n{}\ntext: {src:?}", sdl_of(&got), sdl_of(&m));
                        }
                    }
                }
                Err(e) => {
                    c.probe("sdl_unresolved");
                    let errs: Vec<_> = e.into_iter().collect();
                    let n = errs.len();
                    ensure!(n > 0, "rejected without an error", "{src:?}");
                    let again = || -> Vec<bluejay_parser::Error> {
                        match SchemaDefinition::try_from(&doc) {
                            Err(e) => e.into_iter().map(Into::into).collect(),
                            Ok(_) => vec![],
                        }
                    };
                    reportable(src, &again, None, true)?;
                }
            }
            Ok(())
        }
        (Err(_), Err(b)) => {
            c.probe("sdl_rejected");
            reportable(src, &|| parse().err().unwrap_or_default(), Some(b), true)
        }
        (Ok(_), Err(b)) => viol("accepted malformed schema", format!("{b:?}\n{src:?}")),
        (Err(e), Ok(_)) => viol("rejected well-formed schema", format!("{}\n{src:?}", parser_errs(src, e))),
    }
}
fn sdl_of(s: &Schema) -> String {
    sdl(s)
}

/// A literal as only a hostile or broken client would write it; mostly, but not always, well formed.
fn odd_literal(t: &mut crate::tape::Tape) -> String {
    const BLOCK: [&str; 18] = [" ", "  ", "\t", "\n", "\r", "\r\n", "\"", "\"\"", "\\\"\"\"", "\\", "\\n", "a", "b c", "#", "\u{feff}", "\u{2028}", "é", "\n   "];
    const STR: [&str; 29] = ["a", " ", "\\n", "\\\"", "\\\\", "\\/", "\\b", "\\u0041", "\\u00e9", "\\u{1F600}", "\\u{0}", "\\u{10FFFF}", "\\u{110000}", "\\u{}", "\\u{D800}", "\\uD83D\\uDE00", "\\uD83D", "\\uDE00", "\\uD83D\\u{DE00}", "\\ud83d\\ude00", "\\udBff\\uDfFF", "\\u{d83d}\\u{de00}", "\\x", "\t", "\n", "#", "🔥", "\\u12", "\\u{00000041}"];
    const NUM: [&str; 14] = ["0", "1", "9", "-", "+", ".", "e", "E", "00", "2147483647", "2147483648", "308", "_", "x"];
    let mut o = String::new();
    match t.pick(5) {
        4 => {
            // numbers run into what follows them
            o.push('[');
            for _ in 0..t.range(1, 4) {
                o.push_str(*t.choose(&["0", "1", "-0", "12", "1.5", "1e3", ".", "x", "_", "e", "-", "\"\"", "\"\n\"", "$v", "[]", "...", "{a:1b:2}"]));
            }
            o.push(']');
        }
        0 | 1 => {
            o.push_str("\"\"\"");
            for _ in 0..t.range(0, 12) {
                o.push_str(*t.choose(&BLOCK));
            }
            o.push_str("\"\"\"");
        }
        2 => {
            o.push('"');
            for _ in 0..t.range(0, 6) {
                o.push_str(*t.choose(&STR));
            }
            o.push('"');
        }
        _ => {
            for _ in 0..t.range(1, 5) {
                o.push_str(*t.choose(&NUM));
            }
        }
    }
    o
}

/// The text as a client would send it whose builder loses, repeats, swaps or mistakes whole tokens.
fn token_damage(t: &mut crate::tape::Tape, src: &str) -> String {
    const WORDS: [&str; 24] = [
        "true", "false", "null", "on", "query", "mutation", "subscription", "fragment", "type", "input", "enum", "union", "interface", "scalar", "schema", "directive", "extend", "implements", "repeatable", "FIELD", "OBJECT", "Int", "__typename", "x",
    ];
    const MARKS: [&str; 20] = ["{", "}", "(", ")", "[", "]", ":", "=", "!", "|", "&", "@", "...", "$v", "$", "1", "-0.5", "\"s\"", "\"\"\"b\"\"\"", ".."];
    let Ok(toks) = refparse::lex(src, true) else { return src.into() };
    let mut parts: Vec<String> = toks.iter().map(|x| src[x.start..x.end].to_string()).collect();
    for _ in 0..t.range(1, 2) {
        if parts.is_empty() {
            break;
        }
        let names: Vec<usize> = (0..parts.len()).filter(|i| parts[*i].starts_with(|c: char| c.is_ascii_alphabetic() || c == '_')).collect();
        let i = t.pick(parts.len());
        match t.pick(8) {
            0 | 1 | 2 if !names.is_empty() => {
                let i = *t.choose(&names);
                parts[i] = (*t.choose(&WORDS)).into();
            }
            3 => {
                parts.remove(i);
            }
            4 => {
                let x = parts[i].clone();
                parts.insert(i, x);
            }
            5 => {
                let j = if i + 1 < parts.len() { i + 1 } else { 0 };
                parts.swap(i, j);
            }
            6 => parts.insert(i, (*t.choose(&WORDS)).into()),
            _ => {
                let m = (*t.choose(&MARKS)).to_string();
                if t.chance(1, 2) {
                    parts[i] = m
                } else {
                    parts.insert(i, m)
                }
            }
        }
    }
    parts.join(*t.choose(&[" ", "\n", "  \r\n", " ,# c\n"]))
}

/// the meaning the real parser finds in a part parsed on its own
fn part_of(k: Part, src: &str, ruby: bool) -> Result<String, Vec<bluejay_parser::Error>> {
    use bluejay_core::definition::TypeDefinitionReference as T;
    use bluejay_parser::ast::{self, definition as d, executable as x};
    type C = DefaultContext;
    type TD<'a> = d::TypeDefinition<'a, C>;
    macro_rules! p {
        ($t:ty, $f:expr) => {
            <$t>::parse_with_options(src, opts(ruby)).map(|v| format!("{:?}", $f(&v)))
        };
    }
    match k {
        Part::Value => p!(ast::VariableValue, snap::value),
        Part::Const => p!(ast::ConstValue, snap::value),
        Part::Args => p!(ast::VariableArguments, |a| snap::args(Some(a))),
        Part::Dirs => p!(ast::VariableDirectives, |a| snap::dirs(Some(a))),
        Part::ConstDirs => p!(ast::ConstDirectives, |a| snap::dirs(Some(a))),
        Part::VarType => p!(x::VariableType, snap::var_ty),
        Part::Sels => p!(x::SelectionSet, snap::sels),
        Part::Field => p!(x::Field, snap::field_sel),
        Part::Op => p!(x::OperationDefinition, |o| Def::Op(snap::op::<ExecutableDocument>(o))),
        Part::Frag => p!(x::FragmentDefinition, snap::frag::<ExecutableDocument>),
        Part::InVal => p!(d::InputValueDefinition<C>, snap::in_val),
        Part::FieldDef => p!(d::FieldDefinition<C>, snap::field),
        Part::EnumVal => p!(d::EnumValueDefinition<C>, snap::enum_val),
        Part::ArgDefs => p!(d::ArgumentsDefinition<C>, |a: &d::ArgumentsDefinition<C>| bluejay_core::AsIter::iter(a).map(snap::in_val).collect::<Vec<_>>()),
        Part::DirDef => p!(d::DirectiveDefinition<C>, snap::dir_def),
        Part::Scalar => p!(d::CustomScalarTypeDefinition<C>, |o| snap::type_def::<TD>(T::CustomScalar(o), false).unwrap()),
        Part::Object => p!(d::ObjectTypeDefinition<C>, |o| snap::type_def::<TD>(T::Object(o), false).unwrap()),
        Part::Interface => p!(d::InterfaceTypeDefinition<C>, |o| snap::type_def::<TD>(T::Interface(o), false).unwrap()),
        Part::Union => p!(d::UnionTypeDefinition<C>, |o| snap::type_def::<TD>(T::Union(o), false).unwrap()),
        Part::Enum => p!(d::EnumTypeDefinition<C>, |o| snap::type_def::<TD>(T::Enum(o), false).unwrap()),
        Part::Input => p!(d::InputObjectTypeDefinition<C>, |o| snap::type_def::<TD>(T::InputObject(o), false).unwrap()),
    }
}

/// A piece of a document, cut out and stored or sent on its own, means what it meant inside the document.
fn check_part(c: &mut Ctx, k: Part, src: &str, ruby: bool) -> R {
    c.eval();
    let got = part_of(k, src, ruby);
    // only the tokens up to the end of the part are read; what is wrong behind it is not judged
    let toks = match refparse::lex(src, ruby) {
        Ok(t) => t,
        Err(_) => {
            if got.is_err() {
                return reportable(src, &|| part_of(k, src, ruby).err().unwrap_or_default(), None, false);
            }
            return Ok(());
        }
    };
    match (got, refparse::part_at(k, &toks, src.len(), 0)) {
        (Ok(g), Ok((w, n))) if n == toks.len() => {
            c.probe("part_accepted");
            ensure!(g == w, "part misread", "{k:?} read as\n{g}\nbut the text says\n{w}\ntext: {src:?}");
            Ok(())
        }
        (_, Ok((_, n))) if n < toks.len() => Ok(()),
        (Ok(g), Err(b)) => viol("accepted malformed part", format!("{k:?} {b:?} read as {g}\n{src:?}")),
        (Err(e), Ok(_)) => viol("rejected well-formed part", format!("{k:?} {}\n{src:?}", parser_errs(src, e))),
        (Err(_), Err(b)) => {
            c.probe("part_rejected");
            reportable(src, &|| part_of(k, src, ruby).err().unwrap_or_default(), Some(b), true)
        }
        _ => Ok(()),
    }
}

/// Clients and tools keep pieces of documents: cut one of any kind out of `src`.
fn cut_part(t: &mut crate::tape::Tape, src: &str) -> Option<(Part, String)> {
    let toks = refparse::lex(src, true).ok()?;
    let k = *t.choose(&refparse::PARTS);
    let spans: Vec<(usize, usize)> = (0..toks.len()).filter_map(|i| refparse::part_at(k, &toks, src.len(), i).ok().filter(|x| x.1 > i).map(|x| (i, x.1))).collect();
    if spans.is_empty() {
        return None;
    }
    let (a, b) = *t.choose(&spans);
    Some((k, src[toks[a].start..toks[b - 1].end].to_string()))
}

fn run(c: &mut Ctx) -> R {
    let s = gen_schema(&mut c.t, &SchemaCfg { max_types: 6, descs: true, weird_strings: true, ..Default::default() });
    let ssrc = schema_src(&s, Style::Noisy, &mut c.t);
    c.input(&ssrc);
    let n = c.t.range(2, 4);
    // gateways in front of graphql-ruby servers read what their clients send with the compatibility option
    let ruby: Vec<bool> = (0..n + 1).map(|_| c.t.chance(1, 3)).collect();
    let mut outbox: Vec<(usize, bool, String)> = vec![];
    for i in 0..n {
        let k = c.t.range(1, 3);
        for _ in 0..k {
            if c.t.chance(1, 4) {
                outbox.push((i, true, ssrc.clone()));
            } else {
                let cfg = doc_cfg(c);
                let d = gen_doc(&mut c.t, &s, &cfg);
                let src = doc_src(&d, Style::Noisy, &mut c.t);
                outbox.push((i, false, src));
            }
        }
    }
    if c.faults_on {
        for _ in 0..c.t.pick(4) {
            let l = odd_literal(&mut c.t);
            c.fault("odd_literal");
            if c.t.chance(1, 4) {
                outbox.push((n, true, format!("{l} type Query {{ {l} a(x: String = {l}): Int }}")));
            } else {
                outbox.push((n, false, format!("{{ a(x: {l}) }}")));
            }
        }
    }
    let mut prev: Option<String> = None;
    while !outbox.is_empty() {
        let k = c.t.pick(outbox.len());
        let (who, is_sdl, mut msg) = outbox.remove(k);
        let mut mangled = false;
        if c.faults_on && who != n && c.t.chance(1, 3) {
            let m = token_damage(&mut c.t, &msg);
            mangled = m != msg;
            msg = m;
            if mangled {
                c.fault("token_mistaken");
            }
        }
        c.step(who, if is_sdl { "send schema" } else { "send operation" });
        let (got, faults) = transmit(c, &msg, prev.as_deref(), 3);
        c.input(&got);
        prev = Some(msg.clone());
        c.nontrivial = true;
        if who != n && c.t.chance(1, 3) {
            if let Some((k, part)) = cut_part(&mut c.t, &msg) {
                let part = if c.faults_on && c.t.chance(1, 3) { token_damage(&mut c.t, &part) } else { part };
                let (part, _) = transmit(c, &part, None, 2);
                check_part(c, k, &part, ruby[who])?;
            }
        }
        if is_sdl {
            check_sdl(c, &got, ruby[who])?;
        } else {
            let d = check_exec(c, &got, ruby[who])?;
            if faults == 0 && who != n && !mangled {
                ensure!(d.is_some(), "clean message rejected", "{msg:?}");
            }
            if let Some(d) = d {
                c.obs(&format!("ok {}", d.defs.len()));
                if c.t.chance(1, 8) {
                    // a proxy re-serialises what it understood; the next hop must understand the same
                    let hop = doc_src(&d, Style::Noisy, &mut c.t);
                    check_exec(c, &hop, !ruby[who])?;
                }
            }
        }
    }
    Ok(())
}
