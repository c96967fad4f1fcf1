//! S12: printing onto sinks that fail: what was not written is never reported as written.
use super::s11::{norm_doc, norm_schema, read, Content};
use super::Prop;
use crate::ctx::{viol, Ctx, R};
use crate::ensure;
use crate::gen::*;
use crate::model::*;
use crate::tenant::{gen_tenant, SimWarden};
use crate::world::*;
use bluejay_printer::definition::SchemaDefinitionPrinter;
use bluejay_printer::executable::ExecutableDocumentPrinter;
use bluejay_printer::value::ValuePrinter;
use bluejay_visibility as bv;
use std::fmt::{self, Display};
use std::io;

pub const PROP: Prop = Prop {
    id: "S12",
    run,
    known: &[],
    quick_secs: 40,
    thorough_secs: 600,
    min_secs: 30,
    rule: "2-4 processes print schemas, scoped views, documents and values onto one simulated disk (std::io) or into text sinks (std::fmt), interleaved at every single write: a process can be preempted in the middle of a print by another that prints the same things. The scheduler makes writes short, interrupts them, fails them once or for good, fills the disk, frees it, and crashes processes in a write; files are replaced by rename after success only. Non-trivial: at least one print failed.",
    real: "bluejay-printer, bluejay-visibility (views printed), bluejay-parser (documents, reading back), std::fmt and std::io adapters",
    stub: "disk, text sinks, processes",
    assumptions: "a sink that fails writes nothing of the failing call or a part of it. The printers' own output is what they give to a sink that never fails (what that output says is S11).",
};

/// Something that can be printed, and what it looks like.
struct Thing<'a> {
    name: &'static str,
    whole: String,
    show: Box<dyn Fn(&mut fmt::Formatter<'_>) -> fmt::Result + 'a>,
}
struct Shown<'t, 'a>(&'t Thing<'a>);
impl Display for Shown<'_, '_> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (self.0.show)(f)
    }
}

struct Crash;

struct Sink<'w, 'c, 'a> {
    c: &'c mut Ctx,
    things: &'w [Thing<'a>],
    files: &'c mut Vec<Vec<u8>>,
    free: &'c mut usize,
    depth: usize,
    who: usize,
    at: usize,
    got: Vec<u8>,
    failed: bool,
    after_failure: usize,
    inner: Option<crate::ctx::Violation>,
    rate: usize,
}

impl Sink<'_, '_, '_> {
    fn preempt(&mut self) {
        if self.depth < 2 && self.inner.is_none() && self.c.t.chance(1, 300) {
            let (w, k) = (self.c.t.pick(4), self.c.t.pick(self.things.len()));
            self.c.step(w, "preempt");
            if let Err(v) = print(self.c, self.things, self.files, self.free, self.depth + 1, w, k) {
                self.inner = Some(v);
            }
        }
    }
    /// how much of `n` bytes this write takes
    fn take(&mut self, b: &[u8]) -> io::Result<usize> {
        if self.failed {
            self.after_failure += 1;
        }
        self.preempt();
        self.at += 1;
        if b.is_empty() {
            return Ok(0);
        }
        let rate = self.rate;
        let mut n = b.len();
        if rate > 0 && self.c.f(1, rate) {
            match self.c.t.pick(6) {
                0 => {
                    self.c.fault("short_write");
                    n = self.c.t.range(1, n);
                }
                1 => {
                    self.c.fault("interrupted");
                    return Err(io::ErrorKind::Interrupted.into());
                }
                2 => {
                    self.c.fault("write_error_once");
                    self.failed = true;
                    return Err(io::ErrorKind::Other.into());
                }
                3 => {
                    self.c.fault("torn_write");
                    n = self.c.t.pick(n);
                    self.got.extend(&b[..n]);
                    self.failed = true;
                    return Err(io::ErrorKind::Other.into());
                }
                4 => {
                    self.c.fault("disk_fills");
                    *self.free = self.c.t.pick(20);
                }
                _ => {
                    self.c.fault("crash_in_write");
                    std::panic::resume_unwind(Box::new(Crash));
                }
            }
        }
        if n > *self.free {
            if *self.free == 0 {
                self.c.probe("disk_full");
                self.failed = true;
                return Err(io::ErrorKind::Other.into());
            }
            n = *self.free;
        }
        self.got.extend(&b[..n]);
        *self.free -= n;
        Ok(n)
    }
}
impl io::Write for Sink<'_, '_, '_> {
    fn write(&mut self, b: &[u8]) -> io::Result<usize> {
        self.take(b)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
/// a text sink takes a text as a whole or fails
impl fmt::Write for Sink<'_, '_, '_> {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        let mut b = s.as_bytes();
        loop {
            match self.take(b) {
                Ok(n) if n == b.len() => return Ok(()),
                Ok(n) => b = &b[n..],
                Err(e) if e.kind() == io::ErrorKind::Interrupted => {}
                Err(_) => return Err(fmt::Error),
            }
        }
    }
}

fn print(c: &mut Ctx, things: &[Thing<'_>], files: &mut Vec<Vec<u8>>, free: &mut usize, depth: usize, who: usize, k: usize) -> R {
    let th = &things[k];
    let io = c.t.chance(1, 2);
    let rate = if c.t.chance(1, 3) { 0 } else { *c.t.choose(&[400, 60, 10]) };
    c.eval();
    let (before, room) = (files[k].clone(), *free);
    let mut sink = Sink { c, things, files, free, depth, who, at: 0, got: vec![], failed: false, after_failure: 0, inner: None, rate };
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        if io {
            io::Write::write_fmt(&mut sink, format_args!("{}", Shown(th))).map_err(|_| ())
        } else {
            fmt::Write::write_fmt(&mut sink, format_args!("{}", Shown(th))).map_err(|_| ())
        }
    }));
    let Sink { got, failed, after_failure, inner, who, at, .. } = sink;
    if let Some(v) = inner {
        return Err(v);
    }
    let _ = (before, room, who, at);
    c.obs(&format!("{} {} {} {}", th.name, got.len(), failed, r.is_ok()));
    let whole = th.whole.as_bytes();
    let n = th.name;
    ensure!(whole.starts_with(&got), format!("{n}: hole"), "written: {:?}\nwhole: {:?}", String::from_utf8_lossy(&got), th.whole);
    // reporting the failure is all that is left to do
    ensure!(after_failure == 0, format!("{n}: goes on after a failed write"), "{after_failure} more writes");
    match r {
        Err(p) => {
            if !p.is::<Crash>() {
                std::panic::resume_unwind(p);
            }
            c.nontrivial = true;
            // a crash leaves nothing but the file that was there
            *free += got.len();
        }
        Ok(Ok(())) => {
            ensure!(!failed, format!("{n}: failure not reported"), "written: {:?}", String::from_utf8_lossy(&got));
            ensure!(got == whole, format!("{n}: incomplete but reported as done"), "written: {:?}\nwhole: {:?}", String::from_utf8_lossy(&got), th.whole);
            c.probe("printed");
            files[k] = got;
        }
        Ok(Err(())) => {
            ensure!(failed, format!("{n}: failure made up"), "written: {:?}", String::from_utf8_lossy(&got));
            c.nontrivial = true;
            c.probe("failure_reported");
            *free += got.len();
        }
    }
    if *free < 200 {
        *free += 10_000;
    }
    Ok(())
}

fn run(c: &mut Ctx) -> R {
    let weird_strings = c.t.chance(1, 2);
    let cfg = SchemaCfg { descs: true, weird_strings, schema_dirs: true, ..Default::default() };
    let s = gen_schema(&mut c.t, &cfg);
    let src = schema_src(&s, Style::Plain, &mut c.t);
    c.input(&src);
    let d = gen_doc(&mut c.t, &s, &DocCfg { weird_strings, budget: 25, max_depth: 3, ..Default::default() });
    let dsrc = doc_src(&d, Style::Plain, &mut c.t);
    c.input(&dsrc);
    let tenant = gen_tenant(&mut c.t, &s);
    let tys: Vec<Ty> = ["Int", "Float", "String"].into_iter().map(String::from).chain(s.types.iter().filter(|t| t.is_input()).map(|t| t.name.clone())).map(|n| Ty::named(&n)).collect();
    let ty = tys[c.t.pick(tys.len())].clone();
    let j = crate::vars::json_of(&const_val(&mut c.t, &s, &ty, 3, weird_strings));
    let e = parse_valid(&dsrc)?;
    with_schema(&src, |rs| {
        let vc = bv::Cache::new(SimWarden::new(std::rc::Rc::new(tenant.clone())), rs);
        let view = bv::SchemaDefinition::new(&vc).ok();
        let mut things = vec![
            Thing { name: "schema", whole: SchemaDefinitionPrinter::to_string(rs), show: Box::new(|f| SchemaDefinitionPrinter::new(rs).fmt(f)) },
            Thing { name: "document", whole: ExecutableDocumentPrinter::to_string(&e), show: Box::new(|f| ExecutableDocumentPrinter::new(&e).fmt(f)) },
            Thing { name: "value", whole: ValuePrinter::<true, _>::to_string(&j), show: Box::new(|f| ValuePrinter::<true, _>::new(&j).fmt(f)) },
        ];
        if let Some(v) = &view {
            // what another view of the same kind shows, so that this one is first used under faults
            let vc2 = bv::Cache::new(SimWarden::new(std::rc::Rc::new(tenant.clone())), rs);
            if let Ok(v2) = bv::SchemaDefinition::new(&vc2) {
                things.push(Thing { name: "view", whole: SchemaDefinitionPrinter::to_string(&v2), show: Box::new(move |f| SchemaDefinitionPrinter::new(v).fmt(f)) });
            }
        }
        let mut files: Vec<Vec<u8>> = things.iter().map(|_| vec![]).collect();
        let mut free = 20_000;
        let n = c.t.range(2, 4);
        for _ in 0..c.t.range(3, 12) {
            let (who, k) = (c.t.pick(n), c.t.pick(things.len()));
            c.step(who, "print");
            print(c, &things, &mut files, &mut free, 0, who, k)?;
        }
        // the faults stop: a retry succeeds
        let on = std::mem::replace(&mut c.faults_on, false);
        free = 1_000_000;
        for k in 0..things.len() {
            print(c, &things, &mut files, &mut free, 0, 0, k)?;
            ensure!(files[k] == things[k].whole.as_bytes(), "no progress after the faults stopped", "{}", things[k].name);
        }
        c.faults_on = on;
        let (a, b) = (String::from_utf8_lossy(&files[0]).to_string(), String::from_utf8_lossy(&files[1]).to_string());
        ensure!(read(true, &a) == Some(Content::Schema(norm_schema(s.clone()))), "stored schema", "{a}\n{src}");
        ensure!(read(false, &b) == Some(Content::Doc(norm_doc(&d))), "stored document", "{b}\n{dsrc}");
        if files.iter().any(|f| f.is_empty()) {
            return viol("harness: empty print", "");
        }
        Ok(())
    })
}
