//! S11: schemas and documents replicated from node to node as printed text stay what they are.
use super::Prop;
use crate::ctx::{viol, Ctx, R};
use crate::ensure;
use crate::gen::*;
use crate::model::*;
use crate::mutate::mutate;
use crate::refparse;
use crate::snap;
use crate::tape::Tape;
use crate::world::*;
use bluejay_printer::{definition::SchemaDefinitionPrinter, executable::ExecutableDocumentPrinter, value::ValuePrinter};

pub const PROP: Prop = Prop {
    id: "S11",
    run,
    known: &[],
    quick_secs: 40,
    thorough_secs: 600,
    min_secs: 40,
    rule: "A run has 2-5 nodes replicate 1-4 versions of a schema or a query document. A node keeps the text of the newest version it knows on its disk, parses it, and forwards what it prints to its peers. Messages are lost, duplicated, delayed and reordered, links are cut and heal, nodes crash at arbitrary points and come back with their disk only, and with other hash keys. After the faults stop the nodes exchange what they have. Non-trivial: a printed version was parsed by a node that did not print it.",
    real: "bluejay-printer (schema, document and value printers), bluejay-parser (parser, registry), bluejay-core",
    stub: "nodes, disks, network",
    assumptions: "content: what an independent snapshot through bluejay_core's traits and an independent parser read; the order of definitions of a document is operations first; an operation without name, variables and directives is the same with and without keyword",
};

pub fn strange(t: &mut Tape) -> String {
    const P: [&str; 26] = [
        " ", "  ", "\t", "\n", "\n\n", "\r", "\r\n", "a", "b c", "\"", "\"\"", "\"\"\"", "\\", "\\\"\"\"", "\\n", "#", "{", "\u{0}", "\u{7}", "\u{8}", "\u{b}", "\u{1f}", "\u{7f}", "\u{feff}", "é🔥", "\u{2028}",
    ];
    (0..t.range(0, 6)).map(|_| P[t.pick(P.len())]).collect()
}
fn strange_float(t: &mut Tape) -> f64 {
    let f = match t.pick(6) {
        0 => *t.choose(&[0.0, -0.0, 1e-11, 1.00000000001, 123456789.00000000002, 1e21, 1e300, 5e-324, -2.5, f64::MAX, f64::MIN_POSITIVE, 0.1, 1e15, 1e16, 9007199254740993.0, 3.0000000000000004]),
        1 => f64::from_bits(((t.raw() as u64) << 32) | t.raw() as u64),
        2 => t.raw() as f64 / 1e12,
        3 => t.raw() as f64 * 1e-3,
        4 => t.raw() as f64 + 1e-10,
        _ => t.pick(1000) as f64,
    };
    if f.is_finite() {
        f
    } else {
        0.5
    }
}

fn rewrite_val(t: &mut Tape, v: &mut Val) {
    match v {
        Val::Str(s) if t.chance(1, 2) => *s = strange(t),
        Val::Float(f) if t.chance(1, 2) => *f = strange_float(t),
        Val::List(l) => l.iter_mut().for_each(|v| rewrite_val(t, v)),
        Val::Obj(l) => l.iter_mut().for_each(|v| rewrite_val(t, &mut v.1)),
        _ => {}
    }
}
fn rewrite_dirs(t: &mut Tape, d: &mut Dirs) {
    d.iter_mut().for_each(|d| d.args.iter_mut().for_each(|a| rewrite_val(t, &mut a.1)))
}
fn rewrite_desc(t: &mut Tape, d: &mut Option<String>) {
    if t.chance(1, 6) {
        *d = Some(strange(t))
    }
}
fn rewrite_ins(t: &mut Tape, l: &mut [InVal]) {
    for i in l {
        rewrite_desc(t, &mut i.desc);
        if let Some(v) = &mut i.default {
            rewrite_val(t, v)
        }
        rewrite_dirs(t, &mut i.dirs);
    }
}

/// unusual but legal content everywhere
pub fn strange_schema(t: &mut Tape, s: &mut Schema) {
    if s.explicit {
        rewrite_desc(t, &mut s.desc);
    }
    rewrite_dirs(t, &mut s.dirs);
    for x in &mut s.types {
        rewrite_desc(t, &mut x.desc);
        rewrite_dirs(t, &mut x.dirs);
        match &mut x.kind {
            Kind::Enum(v) => v.iter_mut().for_each(|v| {
                rewrite_desc(t, &mut v.desc);
                rewrite_dirs(t, &mut v.dirs)
            }),
            Kind::Input(v) => rewrite_ins(t, v),
            Kind::Interface(_, f) | Kind::Object(_, f) => f.iter_mut().for_each(|f| {
                rewrite_desc(t, &mut f.desc);
                rewrite_dirs(t, &mut f.dirs);
                rewrite_ins(t, &mut f.args)
            }),
            _ => {}
        }
    }
    for d in &mut s.directives {
        rewrite_desc(t, &mut d.desc);
        rewrite_ins(t, &mut d.args);
    }
    // types that merely carry the name of a root
    if s.explicit {
        for n in ["Query", "Mutation", "Subscription"] {
            if s.ty(n).is_none() && t.chance(1, 3) {
                let f = FieldDef { name: "a".into(), desc: None, args: vec![], ty: Ty::named("Int"), dirs: vec![] };
                let kind = match t.pick(3) {
                    0 => Kind::Scalar,
                    1 => Kind::Enum(vec![EnumVal { name: "A".into(), desc: None, dirs: vec![] }]),
                    _ => Kind::Object(vec![], vec![f]),
                };
                let at = t.pick(s.types.len() + 1);
                s.types.insert(at, TypeDef { name: n.into(), desc: None, dirs: vec![], kind });
            }
        }
        // a root may carry its usual name although the block is explicit
        if s.query != "Query" && s.ty("Query").is_none() && t.chance(1, 2) {
            let old = s.query.clone();
            rename(s, &old, "Query");
            s.query = "Query".into();
        }
    }
}
fn rename(s: &mut Schema, a: &str, b: &str) {
    let ty = |t: &mut Ty| {
        if t.base() == a {
            *t = t.rebase(b)
        }
    };
    let nm = |n: &mut String| {
        if n == a {
            *n = b.to_string()
        }
    };
    for x in &mut s.types {
        nm(&mut x.name);
        match &mut x.kind {
            Kind::Input(v) => v.iter_mut().for_each(|i| ty(&mut i.ty)),
            Kind::Interface(i, f) | Kind::Object(i, f) => {
                i.iter_mut().for_each(nm);
                f.iter_mut().for_each(|f| ty(&mut f.ty))
            }
            Kind::Union(m) => m.iter_mut().for_each(nm),
            _ => {}
        }
    }
}

pub fn strange_doc(t: &mut Tape, d: &mut Doc) {
    fn sels(t: &mut Tape, s: &mut [Sel]) {
        for x in s {
            match x {
                Sel::Field(f) => {
                    f.args.iter_mut().for_each(|a| rewrite_val(t, &mut a.1));
                    rewrite_dirs(t, &mut f.dirs);
                    sels(t, &mut f.sels)
                }
                Sel::Spread(_, d) => rewrite_dirs(t, d),
                Sel::Inline(_, d, s) => {
                    rewrite_dirs(t, d);
                    sels(t, s)
                }
            }
        }
    }
    for x in &mut d.defs {
        match x {
            Def::Op(o) => {
                rewrite_dirs(t, &mut o.dirs);
                for v in &mut o.vars {
                    if let Some(x) = &mut v.default {
                        rewrite_val(t, x)
                    }
                    rewrite_dirs(t, &mut v.dirs)
                }
                sels(t, &mut o.sels)
            }
            Def::Frag(f) => {
                rewrite_dirs(t, &mut f.dirs);
                sels(t, &mut f.sels)
            }
        }
    }
}

#[derive(Clone, PartialEq, Debug)]
pub enum Content {
    Schema(Schema),
    Doc(Doc),
}
pub fn norm_schema(mut s: Schema) -> Schema {
    s.explicit = false;
    s.types.sort_by(|a, b| a.name.cmp(&b.name));
    s.directives.sort_by(|a, b| a.name.cmp(&b.name));
    s
}
pub fn norm_doc(d: &Doc) -> Doc {
    let mut d = snap::normal_doc(d);
    for x in &mut d.defs {
        if let Def::Op(o) = x {
            o.shorthand = false;
        }
    }
    d
}

/// (what the node's objects show, what the node prints)
fn load(schema: bool, text: &str) -> R<(Content, String)> {
    if schema {
        with_schema(text, |s| Ok((Content::Schema(norm_schema(snap::schema(s))), SchemaDefinitionPrinter::to_string(s))))
    } else {
        let e = parse_valid(text)?;
        Ok((Content::Doc(norm_doc(&snap::doc(&e))), ExecutableDocumentPrinter::to_string(&e)))
    }
}
/// what the text says, independently
pub fn read(schema: bool, text: &str) -> Option<Content> {
    if schema {
        Some(Content::Schema(norm_schema(refparse::parse_sdl(text).ok()?.model()?)))
    } else {
        Some(Content::Doc(norm_doc(&refparse::parse(text).ok()?)))
    }
}

struct Node {
    /// (version, text)
    disk: Option<(usize, String)>,
    /// what was parsed and printed since the last start
    mem: Option<(usize, String)>,
    hash: u64,
}

struct Sim {
    schema: bool,
    want: Vec<Content>,
    /// the text of each version once printed
    fixed: Vec<Option<String>>,
    nodes: Vec<Node>,
    wire: Vec<(usize, usize, usize, String)>,
    cut: Vec<(usize, usize)>,
}

impl Sim {
    /// node `i` parses what is on its disk
    fn start(&mut self, c: &mut Ctx, i: usize) -> R {
        let Some((v, text)) = self.nodes[i].disk.clone() else { return Ok(()) };
        let schema = self.schema;
        let hash = self.nodes[i].hash;
        let (got, printed) = if hash == 0 {
            load(schema, &text)?
        } else {
            match crate::alloc::with_hash_seed(hash, || load(schema, &text)) {
                Ok(x) => x,
                Err(e) => return Err(e),
            }
        };
        c.eval();
        let first = self.fixed[v].is_none();
        if got != self.want[v] {
            let how = if first { "as written" } else { "as replicated" };
            return viol(format!("content {how}"), format!("version {v} arrived at node {i} as {got:?}\ninstead of {:?}\n{text}", self.want[v]));
        }
        match read(schema, &printed) {
            Some(r) => ensure!(r == self.want[v], "printed content", "version {v} is printed as\n{printed}\nwhich says {r:?}\ninstead of {:?}", self.want[v]),
            None => return viol("printed text", format!("version {v} is printed as no GraphQL document\n{printed}")),
        }
        match &self.fixed[v] {
            None => self.fixed[v] = Some(printed.clone()),
            Some(f) => ensure!(*f == printed, "printed text differs", "version {v} was printed as\n{f}\nand, by node {i}, as\n{printed}"),
        }
        c.obs(&printed);
        self.nodes[i].mem = Some((v, printed));
        Ok(())
    }
    fn learn(&mut self, c: &mut Ctx, i: usize, v: usize, text: String) -> R {
        if self.nodes[i].disk.as_ref().is_some_and(|d| d.0 >= v) {
            return Ok(());
        }
        self.nodes[i].disk = Some((v, text));
        self.nodes[i].mem = None;
        if c.f(1, 6) {
            // down before the new version was looked at
            self.crash(c, i);
        }
        self.start(c, i)
    }
    fn crash(&mut self, c: &mut Ctx, i: usize) {
        self.nodes[i].mem = None;
        self.nodes[i].hash = if c.t.chance(1, 4) { c.t.raw() as u64 } else { 0 };
        c.fault("node_crash_restart");
    }
    fn send(&mut self, c: &mut Ctx, from: usize, to: usize) {
        if from == to {
            return;
        }
        if let Some((v, t)) = self.nodes[from].mem.clone() {
            if self.cut.contains(&(from, to)) || c.f(1, 5) {
                c.fault("message_loss");
                return;
            }
            self.wire.push((from, to, v, t.clone()));
            if c.f(1, 5) {
                c.fault("message_duplication");
                self.wire.push((from, to, v, t));
            }
        }
    }
}

fn run(c: &mut Ctx) -> R {
    let schema = c.t.chance(1, 2);
    let n = c.t.range(2, 5);
    let weird = c.t.chance(1, 2);
    let cfg = SchemaCfg { descs: true, weird_strings: weird, schema_dirs: true, ..Default::default() };
    let s = gen_schema(&mut c.t, &cfg);
    let mut sim = Sim { schema, want: vec![], fixed: vec![], nodes: (0..n).map(|_| Node { disk: None, mem: None, hash: 0 }).collect(), wire: vec![], cut: vec![] };
    let mut sources = vec![];
    for v in 0..c.t.range(1, 4) {
        let (text, want) = if schema {
            let mut s = if v == 0 { s.clone() } else { gen_schema(&mut c.t, &cfg) };
            if weird {
                strange_schema(&mut c.t, &mut s);
            }
            let style = if c.t.chance(1, 2) { Style::Plain } else { Style::Noisy };
            (schema_src(&s, style, &mut c.t), Content::Schema(norm_schema(s)))
        } else {
            let cfg = DocCfg { weird_strings: weird, budget: 30, max_depth: 3, ..Default::default() };
            let mut d = gen_doc(&mut c.t, &s, &cfg);
            if weird {
                strange_doc(&mut c.t, &mut d);
            }
            if c.t.chance(1, 3) {
                for _ in 0..c.t.range(1, 3) {
                    mutate(&mut c.t, &s, &mut d);
                }
            }
            let style = if c.t.chance(1, 2) { Style::Plain } else { Style::Noisy };
            let text = doc_src(&d, style, &mut c.t);
            // an edit may leave what is no document
            match refparse::parse(&text) {
                Ok(d) => (text, Content::Doc(norm_doc(&d))),
                Err(_) => continue,
            }
        };
        // what was written must be what the independent parser reads
        ensure!(read(schema, &text).as_ref() == Some(&want), "harness: reading", "{:?}\n{want:?}\n{text}", read(schema, &text));
        c.input(&text);
        sim.want.push(want);
        sim.fixed.push(None);
        sources.push(text);
    }
    if sources.is_empty() {
        return Ok(());
    }
    let mut next = 0;
    for _ in 0..c.t.range(6, 24) {
        match c.t.pick(8) {
            0 | 1 if next < sources.len() => {
                // a publisher hands the next version, as written, to some node
                let i = c.t.pick(n);
                c.step(i, "publish");
                sim.learn(c, i, next, sources[next].clone())?;
                next += 1;
            }
            2..=4 => {
                let (a, b) = (c.t.pick(n), c.t.pick(n));
                c.step(a, "send");
                sim.send(c, a, b);
            }
            5 | 6 if !sim.wire.is_empty() => {
                let k = c.t.pick(sim.wire.len());
                if k != 0 {
                    c.fault("message_reorder");
                }
                let (_, to, v, text) = sim.wire.remove(k);
                c.step(to, "deliver");
                c.nontrivial = true;
                sim.learn(c, to, v, text)?;
            }
            _ if c.faults_on => {
                let i = c.t.pick(n);
                match c.t.pick(3) {
                    0 => {
                        c.step(i, "crash");
                        sim.crash(c, i);
                        sim.start(c, i)?;
                    }
                    1 => {
                        let j = c.t.pick(n);
                        c.fault("link_cut");
                        sim.cut.push((i, j));
                    }
                    _ => {
                        c.fault("links_heal");
                        sim.cut.clear();
                    }
                }
            }
            _ => {}
        }
    }
    // the faults stop: everyone tells everyone
    let faults = std::mem::replace(&mut c.faults_on, false);
    sim.cut.clear();
    if next == 0 {
        sim.learn(c, 0, 0, sources[0].clone())?;
    }
    for _ in 0..2 {
        for a in 0..n {
            for b in 0..n {
                sim.send(c, a, b);
                while let Some((_, to, v, text)) = sim.wire.pop() {
                    c.nontrivial = true;
                    sim.learn(c, to, v, text)?;
                }
            }
        }
    }
    c.faults_on = faults;
    let best = sim.nodes.iter().filter_map(|x| x.mem.as_ref().map(|m| m.0)).max();
    for (i, x) in sim.nodes.iter().enumerate() {
        ensure!(x.mem.as_ref().map(|m| m.0) == best && best.is_some(), "no convergence", "node {i} holds {:?}, others {best:?}", x.mem);
        ensure!(x.mem.as_ref().map(|m| &m.1) == sim.fixed[best.unwrap_or(0)].as_ref(), "no convergence", "node {i} prints {:?}", x.mem);
    }
    values(c, &s)
}

/// single values are printed as the literals they are, also when they came as JSON
fn values(c: &mut Ctx, s: &Schema) -> R {
    let names: Vec<Ty> = ["Int", "Float", "String", "Boolean"].into_iter().map(String::from).chain(s.types.iter().filter(|t| t.is_input()).map(|t| t.name.clone())).map(|n| Ty::named(&n)).collect();
    let ty = names[c.t.pick(names.len())].clone();
    let mut v = const_val(&mut c.t, s, &ty, 3, true);
    rewrite_val(&mut c.t, &mut v);
    let j = crate::vars::json_of(&v);
    let text = ValuePrinter::<true, _>::to_string(&j);
    c.eval();
    c.obs(&text);
    let d = format!("{{ f(v: {text}) }}");
    let back = refparse::parse(&d).ok().and_then(|d| {
        let mut r = None;
        d.each_field(&mut |f| r = f.args.first().map(|a| a.1.clone()));
        r
    });
    match back {
        Some(b) => {
            let same = crate::vars::json_of(&b) == j;
            ensure!(same, "printed value", "{j} is printed as {text}, which says {b:?}")
        }
        None => return viol("printed value", format!("{j} is printed as {text}")),
    }
    let e = parse_valid(&d)?;
    let got = snap::doc(&e);
    let mut r = None;
    got.each_field(&mut |f| r = f.args.first().map(|a| crate::vars::json_of(&a.1)));
    ensure!(r.as_ref() == Some(&j), "printed value", "{j} is printed as {text}, which is read as {r:?}");
    Ok(())
}
