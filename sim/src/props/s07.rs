//! S07: a gateway's verdict on what clients send is the specification's verdict, class by class.
use super::Prop;
use crate::ctx::{Ctx, R};
use crate::gen::*;
use crate::model::*;
use crate::mutate::mutate;
use crate::net::transmit;
use crate::refparse;
use crate::refval;
use crate::world::*;
use std::collections::BTreeSet;

pub const PROP: Prop = Prop {
    id: "S07",
    run,
    known: &[],
    quick_secs: 40,
    thorough_secs: 600,
    min_secs: 40,
    rule: "A run interleaves 2-4 client sessions against one gateway. Clients with version skew send documents carrying 0-3 semantic edits (46 kinds), through a transport that loses, duplicates, reorders, cuts and corrupts packets; what arrives is validated by the gateway and by the reference validator. Non-trivial: at least one arriving document parsed and was judged.",
    real: "bluejay-parser, bluejay-validator (all built-in rules, orchestrator, cache), bluejay-core",
    stub: "transport, clients, gateway loop",
    assumptions: "the reference validator is the validation section of the October 2021 specification plus oneOf input objects",
};

fn norm(c: &refval::Classes) -> BTreeSet<&'static str> {
    c.iter().map(|x| if x.starts_with("Merge") { "Merge" } else { *x }).collect()
}

pub fn judge<S: bluejay_core::definition::SchemaDefinition>(c: &mut Ctx, s: &Schema, src: &str, rs: &S) -> R<Option<bool>> {
    let Ok(d) = refparse::parse(src) else { return Ok(None) };
    let e = parse_valid(src)?;
    c.eval();
    judge_on(c, s, src, &d, &e, rs).map(Some)
}

/// Compare the gateway's verdict on `e` under the real schema `rs` with the reference verdict on `d`
/// under the model `s`. True when both accept.
pub fn judge_on<S: bluejay_core::definition::SchemaDefinition>(c: &mut Ctx, s: &Schema, src: &str, d: &Doc, e: &RE<'_>, rs: &S) -> R<bool> {
    let want = norm(&refval::validate(s, d));
    let v = verdict(src, e, rs);
    let got = norm(&v.iter().map(|x| x.0).collect());
    for w in &want {
        c.probe(w);
    }
    c.obs(&format!("{got:?}"));
    if want.contains("FragNameUniq") {
        // which of the equally named fragments a spread means is not specified
        ensure!(got.contains("FragNameUniq"), "missed FragNameUniq", "{got:?} {}", gql(d));
        return Ok(false);
    }
    // what sits below a field, condition, argument or directive that does not exist is not visited,
    // so a fragment or variable used only there is reported as unused as well
    let blocked = ["FieldUnknown", "OpTypeUndefined", "FragNoType", "InlineNoType", "FragNotComposite", "InlineNotComposite", "LeafSel", "ArgUnknownField", "ArgUnknownDir", "DirUnknown"].iter().any(|x| want.contains(x));
    // whether argument lists or objects that name a key twice are "identical" is not specified, and a
    // cycle has no finite set of selections to merge
    let no_merge = want.contains("ArgUniq") || want.contains("FragCycle") || d.has_repeated_keys();
    for w in &want {
        if blocked && (*w == "VarUndefined" || *w == "VarUsage" || *w == "Merge") {
            continue;
        }
        if *w == "Merge" && no_merge {
            continue;
        }
        ensure!(got.contains(w), format!("missed {w}"), "the document violates {want:?} but the gateway reported {got:?}\n{}\n{}", sdl(s), gql(d));
    }
    for g in &got {
        if blocked {
            continue;
        }
        if *g == "Merge" && no_merge {
            continue;
        }
        ensure!(want.contains(g), format!("false {g}"), "the document violates {want:?} but the gateway reported {v:?}\n{}\n{}", sdl(s), gql(d));
    }
    Ok(want.is_empty())
}

fn run(c: &mut Ctx) -> R {
    let s = gen_schema(&mut c.t, &SchemaCfg::default());
    let ssrc = schema_src(&s, Style::Plain, &mut c.t);
    c.input(&ssrc);
    let plain = s;
    let full = plain.with_introspection();
    // the schema's own scalars may refuse kinds of values
    let policy = if c.faults_on && c.t.chance(1, 3) { c.t.raw() } else { 0 };
    if policy != 0 {
        c.fault("scalar_refusals");
    }
    let _policy = refval::scalar_policy(policy);
    with_schema_of(&ssrc, |rs: &SimRS<'_>| {
        let n = c.t.range(2, 4);
        let mut prev: Option<String> = None;
        for _ in 0..c.t.range(n, 3 * n) {
            let who = c.t.pick(n);
            c.step(who, "request");
            let merge_heavy = c.t.chance(1, 3);
            let s = if c.t.chance(1, 4) { &full } else { &plain };
            let mut d = gen_doc(&mut c.t, s, &DocCfg { merge_heavy, budget: 30, max_depth: 3, ..Default::default() });
            let edits = if c.faults_on { c.t.pick(3) } else { 0 };
            for _ in 0..edits {
                let m = mutate(&mut c.t, s, &mut d);
                c.fault("client_version_skew");
                c.note(|| format!("edit: {m}"));
            }
            let src = doc_src(&d, Style::Plain, &mut c.t);
            let level = c.t.pick(2);
            let (got, faults) = transmit(c, &src, prev.as_deref(), level);
            c.input(&got);
            let ok = judge(c, &full, &got, rs)?;
            if ok.is_some() {
                c.nontrivial = true;
            }
            if edits == 0 && faults == 0 && policy == 0 {
                ensure!(ok == Some(true), "clean request rejected", "{src}");
            }
            prev = Some(src);
        }
        Ok(())
    })
}
