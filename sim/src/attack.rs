//! Requests that nobody sends in good faith: dense fragment graphs, deep nesting, wide repetition,
//! noise.
use crate::model::*;
use crate::tape::Tape;
use std::fmt::Write;

/// A schema in which everything can be nested in everything.
pub fn schema(t: &mut Tape) -> String {
    let m = t.range(1, 9);
    let mut s = String::from(
        "type Query implements N { a(x: Int, l: [[[[Int]]]], i: I, k: [K!]): Query b(x: Int): Query c: Int! n: N u: U w: [N!] } input I { i: I j: [I] k: Int s: S } input K @oneOf { k: K i: Int } scalar S directive @d(i: I) repeatable on FIELD | QUERY | FRAGMENT_SPREAD | INLINE_FRAGMENT interface N { a(x: Int, l: [[[[Int]]]], i: I, k: [K!]): Query b(x: Int): Query n: N c: Int! w: [N!] u: U }",
    );
    for i in 0..m {
        let _ = write!(s, " type A{i} implements N {{ a(x: Int, l: [[[[Int]]]], i: I, k: [K!]): Query b(x: Int): Query n: A{} c: Int! x{i}: Int w: [N!] u: U }}", (i + 1) % m);
    }
    s += " union U = Query";
    for i in 0..m {
        let _ = write!(s, " | A{i}");
    }
    s + " type Mutation { c: Int } type Subscription { c: Int }"
}

/// A schema as a random graph of a hundred definitions.
pub fn big_schema(t: &mut Tape, max: usize) -> String {
    let n = t.range(2, max);
    let mut s = String::from("type Query { a: Int } directive @d(a: Int) on OBJECT | FIELD_DEFINITION");
    let kinds: Vec<usize> = (0..n).map(|_| t.pick(6)).collect();
    let req = t.chance(1, 2);
    let dup = t.chance(1, 4);
    let pick = |t: &mut Tape, ok: &[usize]| -> Option<usize> {
        let c: Vec<usize> = (0..n).filter(|i| ok.contains(&kinds[*i])).collect();
        (!c.is_empty()).then(|| c[t.pick(c.len())])
    };
    for i in 0..n {
        let name = if dup && t.chance(1, 3) { format!("T{}", t.pick(n)) } else { format!("T{i}") };
        let k = t.range(1, 6);
        match kinds[i] {
            0 => {
                let _ = write!(s, " scalar {name}");
            }
            1 => {
                let _ = write!(s, " enum {name} {{");
                for j in 0..k {
                    let _ = write!(s, " V{}", if dup { t.pick(k) } else { j });
                }
                s += " }";
            }
            2 => {
                let _ = write!(s, " input {name} {{");
                for j in 0..k {
                    let x = pick(t, &[0, 1, 2]).unwrap_or(0);
                    let q = if req && t.chance(1, 2) { "!" } else { "" };
                    let _ = write!(s, " f{j}: T{x}{q}");
                }
                s += " }";
            }
            3 | 4 => {
                let mut imp: Vec<usize> = vec![];
                for _ in 0..t.pick(4) {
                    if let Some(x) = pick(t, &[3]) {
                        if !imp.contains(&x) && x != i {
                            imp.push(x);
                        }
                    }
                }
                let _ = write!(s, " {} {name}", if kinds[i] == 3 { "interface" } else { "type" });
                for (j, x) in imp.iter().enumerate() {
                    let _ = write!(s, " {} T{x}", if j == 0 { "implements" } else { "&" });
                }
                s += " {";
                for j in 0..k {
                    let x = pick(t, &[0, 1, 3, 4, 5]).unwrap_or(0);
                    let y = pick(t, &[0, 1, 2]).unwrap_or(0);
                    let _ = write!(s, " f{j}(a: T{y}): T{x}");
                }
                s += " }";
            }
            _ => {
                let _ = write!(s, " union {name} =");
                for j in 0..k {
                    let x = pick(t, &[4]).map(|x| format!("T{x}")).unwrap_or("Query".into());
                    let _ = write!(s, " {} {x}", if j == 0 { "" } else { "|" });
                }
            }
        }
    }
    s
}

const COMP: [&str; 6] = ["Query", "N", "U", "A0", "A1", "N"];

/// Fragments that spread each other densely.
pub fn graph(t: &mut Tape, max: usize) -> String {
    let n = t.range(1, max);
    let cyclic = t.chance(1, 4);
    let fan = t.range(1, 5);
    let span = if t.chance(1, 2) { 2 } else { n };
    let mut d = String::from("query Q($v: Int) { n { ...f0 } c }");
    let mut on = vec![];
    let typed = t.chance(1, 2);
    for _ in 0..n {
        on.push(if typed { COMP[t.pick(COMP.len())] } else { "N" });
    }
    let names = t.range(1, 3);
    for i in 0..n {
        let _ = write!(d, " fragment f{i} on {} {{ __typename", on[i]);
        for _ in 0..fan {
            let j = if cyclic { t.pick(n) } else { i + 1 + t.pick(span) };
            if j >= n {
                d += " k: __typename";
                continue;
            }
            let _ = match t.pick(if on[i] == "U" { 2 } else { 6 }) {
                0 => write!(d, " ...f{j}"),
                1 => write!(d, " ... on {} {{ ...f{j} }}", COMP[t.pick(COMP.len())]),
                2 => write!(d, " k{}: n {{ ...f{j} }}", t.pick(names)),
                3 => write!(d, " n {{ ...f{j} }}"),
                4 => write!(d, " a(x: $v) {{ ...f{j} }}"),
                _ => write!(d, " k{}: b {{ ...f{j} c }}", t.pick(names)),
            };
        }
        d += " }";
    }
    d
}

pub fn deep(t: &mut Tape, max: usize) -> String {
    let n = t.range(1, max);
    let (a, b, z): (&str, &str, &str) = match t.pick(9) {
        0 => ("{ a ", "}", "{ c }"),
        1 => ("{ ... ", "}", "{ c }"),
        2 => ("{ n ", "}", "{ c }"),
        3 => ("{ ... on N { n ", "} }", "{ c }"),
        4 => ("{ u { ... on N ", "} }", "{ c }"),
        5 => ("{ w { ... on A0 { n { c } } n { c } } w ", "}", "{ c }"),
        6 => return format!("{{ a(i: {}{{ k: 1 }}{}) {{ c }} }}", "{ i: ".repeat(n), "}".repeat(n)),
        7 => return format!("{{ a(l: {}{}) {{ c }} }}", "[".repeat(n), "]".repeat(n)),
        _ => return format!("query($v: {}Int{}) {{ c }}", "[".repeat(n), "]".repeat(n)),
    };
    format!("{}{z}{}", a.repeat(n), b.repeat(n))
}

pub fn wide(t: &mut Tape, max: usize) -> String {
    let n = t.range(1, max);
    let rep = |f: &dyn Fn(usize) -> String| (0..n).map(f).collect::<String>();
    match t.pick(13) {
        0 => format!("{{ {} }}", " a { c }".repeat(n)),
        1 => format!("{{ {} }}", rep(&|i| format!(" k{i}: c"))),
        2 => format!("{{ a({}) {{ c }} }}", " x: 1".repeat(n)),
        3 => format!("{{ c{} }}", " @d(i: {k: 1})".repeat(n)),
        4 => format!("{{ c{} }}", rep(&|i| format!(" @e{i}"))),
        5 => rep(&|i| format!(" query q{} {{ c }}", i / 2)),
        6 => format!("query({}) {{ c }}", rep(&|i| format!(" $v{}: Int", i / 2))),
        7 => format!("{{ {} }}", rep(&|i| format!(" u{i}"))),
        8 => format!("{{ c }}{}", rep(&|i| format!(" fragment f{} on Nope {{ c }}", i / 2))),
        9 => format!("{{ {} }}", " ... on A0 { c } ... on A1 { n { c } } n { c }".repeat(n)),
        10 => format!("{{ a(i: {{ j: [{}] }}) {{ c }} }}", " {k: 1, k: 2}".repeat(n)),
        11 => format!("query Q({}) {{ {} }}", rep(&|i| format!(" $v{i}: Int")), rep(&|i| format!(" k{i}: a(x: $v{i}) {{ c }}"))),
        _ => {
            let k = n.min(40);
            (0..k).map(|i| format!(" query q{i}($v: Int) {{ ...f0 }}")).collect::<String>() + &(0..k).map(|i| format!(" fragment f{i} on Query {{ a(x: $v) {{ ...f{} }} }}", i + 1)).collect::<String>() + &format!(" fragment f{k} on Query {{ c }}")
        }
    }
}

const TOK: [&str; 44] = [
    "{", "}", "(", ")", "[", "]", "$", "@", "!", "...", ":", "=", "|", "&", "\"", "\"\"\"", "\\", "#", "0", "-", ".", "1e999", "-0.0e-0", "99999999999", "null", "on", "query", "mutation", "subscription", "fragment", "type", "input", "enum", "extend", "schema", "directive", "implements", "a", "\u{0}", "é", "\u{feff}", "\\u{110000}", "\n", "\r",
];
pub fn soup(t: &mut Tape, max: usize) -> String {
    let mut s = String::new();
    for _ in 0..t.range(1, max) {
        s += TOK[t.pick(TOK.len())];
        if t.chance(1, 2) {
            s.push(' ');
        }
    }
    s
}

/// How many selections an operation has once all its fragments are expanded; `cap` for more.
pub fn expanded(d: &Doc, sels: &[Sel], stack: &mut Vec<String>, cap: usize) -> usize {
    let mut n = 0;
    for s in sels {
        n += 1;
        n += match s {
            Sel::Field(f) => expanded(d, &f.sels, stack, cap - n.min(cap)),
            Sel::Inline(_, _, x) => expanded(d, x, stack, cap - n.min(cap)),
            Sel::Spread(f, _) => match d.frag(f) {
                Some(g) if !stack.contains(f) => {
                    stack.push(f.clone());
                    let k = expanded(d, &g.sels, stack, cap - n.min(cap));
                    stack.pop();
                    k
                }
                _ => 0,
            },
        };
        if n >= cap {
            return cap;
        }
    }
    n
}
