//! What ends up in a graph: crates, accounting, links, enabled features,
//! optional dependencies.

use super::*;
use crate::core::{self, Case};
use crate::obs::observe;
use crate::runner::*;
use krates::cm;
use serde_json::{Value, json};
use std::collections::BTreeMap;

fn case<I: Input>(g: &I, cx: &mut Cx) -> Result<Option<Case>, String> {
    let (md, conf) = g.load();
    let r = core::prepare(md, &conf, cx)?;
    match &r {
        Some(c) => {
            c.classify(cx);
            cx.sample(|| sample(&conf, c));
        }
        None => cx.label("no root left"),
    }
    Ok(r)
}

pub fn sample(conf: &crate::model::Conf, c: &Case) -> Value {
    json!({
        "packages": c.model.pkgs.iter().take(20).map(|p| p.id.as_str()).collect::<Vec<_>>(),
        "number of packages": c.model.pkgs.len(),
        "configuration": format!("{conf:?}"),
        "crates in the graph": c.obs.crates.iter().take(20).collect::<Vec<_>>(),
        "links": c.obs.links().len(),
    })
}

// ---- C01

fn c01<I: Input>(g: &I, cx: &mut Cx) -> R {
    let Some(c) = case(g, cx)? else { return Ok(()) };
    cx.nontrivial_if(c.exp.crates.len() >= 3 && c.exp.edges.len() >= 2);
    c.crates()
}

// ---- C02

#[derive(Clone)]
struct Mine {
    id: String,
    json: Value,
}
impl From<cm::Package> for Mine {
    fn from(p: cm::Package) -> Self {
        MADE.with(|m| m.borrow_mut().push(p.id.repr.clone()));
        Mine {
            id: p.id.repr.clone(),
            json: serde_json::to_value(&p).expect("serialize"),
        }
    }
}
thread_local! {
    static MADE: std::cell::RefCell<Vec<String>> = const { std::cell::RefCell::new(Vec::new()) };
}

struct Collect<'a>(&'a mut Vec<cm::Package>);
impl krates::OnFilter for Collect<'_> {
    fn filtered(&mut self, k: cm::Package) {
        self.0.push(k);
    }
}

/// An edge type of the user's own
#[derive(Clone, PartialEq, Debug)]
struct MyEdge(String);
impl From<krates::Edge> for MyEdge {
    fn from(e: krates::Edge) -> Self {
        MyEdge(format!("{e:?}"))
    }
}

fn c02<I: Input>(g: &I, cx: &mut Cx) -> R {
    let (md, conf) = g.load();
    let input: BTreeMap<String, Value> =
        md.packages.iter().map(|p| (p.id.repr.clone(), serde_json::to_value(p).expect("serialize"))).collect();
    MADE.with(|m| m.borrow_mut().clear());
    let mut filtered = Vec::new();
    let r = guard(|| {
        conf.builder().build_with_metadata::<Mine, krates::Edge, _>(md.clone(), Collect(&mut filtered))
    })?;
    let k = match r {
        Ok(k) => k,
        Err(krates::Error::NoRootKrates) => return Ok(()),
        Err(e) => return Err(format!("building failed: {e}")),
    };
    let made = MADE.with(|m| std::mem::take(&mut *m.borrow_mut()));
    let obs = observe(&k, &|m: &Mine| m.id.clone())?;
    let mut seen: BTreeMap<&str, usize> = BTreeMap::new();
    for id in obs.crates.iter().map(String::as_str).chain(filtered.iter().map(|p| p.id.repr.as_str())) {
        *seen.entry(id).or_default() += 1;
    }
    for id in input.keys() {
        match seen.get(id.as_str()) {
            Some(1) => {}
            None => return Err(format!("{id} is neither in the graph nor reported as filtered")),
            Some(n) => return Err(format!("{id} is accounted for {n} times (graph and filtered)")),
        }
    }
    if seen.len() != input.len() {
        return Err(format!("the graph and the filtered crates together have {} packages, not {}", seen.len(), input.len()));
    }
    let mut m2 = made.clone();
    m2.sort();
    let mut c2 = obs.crates.clone();
    c2.sort();
    if m2 != c2 {
        return Err(format!("the user's node type was made for {made:?}, but the graph has {:?}", obs.crates));
    }
    // own data, untouched
    for (i, m) in k.krates().enumerate() {
        if m.id != obs.crates[i] {
            return Err("krates() is not in node order".to_owned());
        }
        if m.json != input[&m.id] {
            return Err(format!("the data of {} changed:\n{}\nwas\n{}", m.id, m.json, input[&m.id]));
        }
    }
    for p in &filtered {
        if serde_json::to_value(p).expect("serialize") != input[&p.id.repr] {
            return Err(format!("the data of the filtered {} changed", p.id));
        }
    }
    // the id of the node is the id of the package
    for (i, n) in k.graph().raw_nodes()[..k.len()].iter().enumerate() {
        let krates::Node::Krate { id, krate, .. } = &n.weight else { unreachable!() };
        if *id != crate::obs::kid(&krate.id) {
            return Err(format!("node {i} has the id {id} but the data of {}", krate.id));
        }
    }
    if k.krates().count() != k.len() || k.len() != obs.crates.len() {
        return Err(format!("len() is {}, krates() has {}", k.len(), k.krates().count()));
    }
    // sorted by name, then version, then source
    let keys: Vec<_> = k
        .graph()
        .raw_nodes()
        .iter()
        .filter_map(|n| match &n.weight {
            krates::Node::Krate { id, .. } => {
                Some((id.name().to_owned(), id.version().to_owned(), id.source().to_owned()))
            }
            _ => None,
        })
        .collect();
    if let Some(x) = keys.windows(2).find(|x| x[0] >= x[1]) {
        return Err(format!("the crates are not sorted: {x:?}"));
    }
    if k.workspace_root() != md.workspace_root.as_path() {
        return Err(format!("workspace root {} instead of {}", k.workspace_root(), md.workspace_root));
    }
    // another edge type and no filter callback make the same graph
    let k2 = guard(|| conf.builder().build_with_metadata::<cm::Package, MyEdge, _>(md.clone(), krates::NoneFilter))?
        .map_err(|e| format!("building with a user's edge type failed: {e}"))?;
    let flat = |s: usize, d: usize, w: String| (s, d, w);
    let e1: Vec<_> = k.graph().raw_edges().iter().map(|e| flat(e.source().index(), e.target().index(), format!("{:?}", e.weight))).collect();
    let e2: Vec<_> = k2.graph().raw_edges().iter().map(|e| flat(e.source().index(), e.target().index(), e.weight.0.clone())).collect();
    if e1 != e2 {
        return Err("a graph with the user's edge type has other edges".to_owned());
    }
    cx.label_if(!filtered.is_empty(), "something filtered");
    cx.label_if(filtered.len() >= 3, ">=3 filtered");
    cx.nontrivial_if(!filtered.is_empty() && k.len() >= 2);
    cx.sample(|| json!({"in the graph": obs.crates, "filtered": filtered.iter().map(|p| p.id.repr.clone()).collect::<Vec<_>>()}));
    Ok(())
}

// ---- C03

fn c03<I: Input>(g: &I, cx: &mut Cx) -> R {
    let Some(c) = case(g, cx)? else { return Ok(()) };
    // the nodes have to be right for the links to be
    c.links()?;
    // the same through the navigation of the graph
    for (i, id) in c.obs.crates.iter().enumerate() {
        let nid = crate::obs::nid(i);
        let mut a: Vec<String> = c
            .k
            .get_deps(nid)
            .map(|(n, e)| match n {
                krates::Node::Krate { krate, .. } => format!("{} {e:?}", krate.id),
                krates::Node::Feature { krate_index, name } => format!("{}/{name} {e:?}", c.k[*krate_index].id),
            })
            .collect();
        a.sort();
        let mut b: Vec<String> = c
            .k
            .graph()
            .raw_edges()
            .iter()
            .filter(|e| e.source() == nid)
            .map(|e| match &c.k.graph()[e.target()] {
                krates::Node::Krate { krate, .. } => format!("{} {:?}", krate.id, e.weight),
                krates::Node::Feature { krate_index, name } => format!("{}/{name} {:?}", c.k[*krate_index].id, e.weight),
            })
            .collect();
        b.sort();
        if a != b {
            return Err(format!("get_deps of {id} gives {a:?}, the graph has {b:?}"));
        }
    }
    cx.label_if(
        c.exp.edges.iter().any(|e| {
            c.exp.edges.iter().any(|f| f.from == e.from && f.to == e.to && (f.kind, &f.cfg) != (e.kind, &e.cfg))
        }),
        "several links between two crates",
    );
    cx.label_if(c.exp.edges.iter().any(|e| e.features.is_empty()), "link without features");
    cx.label_if(c.exp.edges.iter().any(|e| e.features.len() > 1), "link with several features");
    cx.nontrivial_if(
        c.exp.edges.len() >= 3
            && c.exp.edges.iter().any(|e| e.cfg.is_some() || e.kind != crate::world::Kind::Normal || !e.features.is_empty()),
    );
    Ok(())
}

// ---- C04

fn c04<I: Input>(g: &I, cx: &mut Cx) -> R {
    let Some(c) = case(g, cx)? else { return Ok(()) };
    c.features()?;
    for (i, f) in &c.exp.features {
        let id = &c.model.pkgs[*i].id;
        let Some(got) = c.k.get_enabled_features(&crate::obs::kid(id)) else {
            return Err(format!("no enabled features for {id}"));
        };
        if got != f {
            return Err(format!("get_enabled_features({id}) is {got:?} instead of {f:?}"));
        }
    }
    let non_root = c.exp.features.iter().filter(|(i, f)| !c.exp.roots.contains(i) && !f.is_empty()).count();
    cx.label_if(non_root > 0, "dependency with features");
    cx.label_if(
        c.exp.features.iter().any(|(i, f)| !c.exp.roots.contains(i) && *f != c.model.pkgs[*i].resolved),
        "fewer features than cargo resolved",
    );
    cx.nontrivial_if(non_root >= 1 && c.exp.edges.len() >= 2);
    Ok(())
}

// ---- C05

fn c05<I: Input>(g: &I, cx: &mut Cx) -> R {
    let Some(c) = case(g, cx)? else { return Ok(()) };
    c.crates()?;
    let opt = |l: &dyn Fn(usize) -> bool| {
        c.exp.edges.iter().filter(|e| l(e.from)).filter(|e| c.model.pkgs[e.from].decls[e.decl].optional).count()
    };
    // optional declarations one by one
    for (a, p) in c.model.pkgs.iter().enumerate() {
        let Some(nid) = c.k.nid_for_kid(&crate::obs::kid(&p.id)) else { continue };
        for (k, d) in p.decls.iter().enumerate() {
            if !d.optional {
                continue;
            }
            let want = c.exp.edges.iter().find(|e| e.from == a && e.decl == k).map(|e| c.name(e.to));
            let got = c.k.resolved_dependency(nid, k).map(|p| p.id.repr.clone());
            if want != got {
                return Err(format!(
                    "the optional dependency {} ({:?}) of {} should be {want:?}, but is {got:?}",
                    d.toml, d.kind, p.id
                ));
            }
        }
    }
    c.links()?;
    c.toggled()?;
    c.features()?;
    cx.label_if(opt(&|_| true) > 0, "optional link");
    cx.nontrivial_if(c.exp.optional_active + c.exp.weak_applied > 0 && c.exp.optional_inactive + c.exp.weak_pending > 0);
    Ok(())
}

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C01",
            rule: "Worlds of generated manifests (crates.io, other registries, git, path, [patch]; renamed, optional, target specific, multi-kind, multi-version dependencies; simple, dep:, strong and weak features) resolved by a simulation of cargo, with a generated builder configuration; the crates of the graph are compared with a least-fixed-point reference model. Non-trivial: at least three crates and two links are expected.",
            assumptions: ASSUME,
            parts: vec![
                part("plain", 60_000, 3_000_000, plain, c01),
                part("mixed", 200_000, 12_000_000, mixed, c01),
                part("dense", 60_000, 4_000_000, dense, c01),
                part("pruned", 60_000, 4_000_000, pruned, c01),
                part("large", 12_000, 800_000, large, c01),
                part("namesakes", 40_000, 2_000_000, namesakes, c01), part("recorded", 4_000, 200_000, recorded::recorded, c01),
            ],
        },
        Check {
            id: "C02",
            rule: "Worlds and configurations as for C01, built with a node type that records each conversion, a callback that records each filtered package, a second edge type and NoneFilter; every package of the document must be accounted for exactly once, with its data untouched, in sorted order. Non-trivial: at least one package is filtered out and two remain.",
            assumptions: ASSUME,
            parts: vec![
                part("mixed", 60_000, 3_000_000, mixed, c02::<WC>),
                part("large", 3_000, 150_000, large, c02::<WC>),
                part("recorded", 4_000, 200_000, recorded::recorded, c02),
            ],
        },
        Check {
            id: "C03",
            rule: "Worlds and configurations as for C01; the set of links (dependent, dependency, kind, cfg, requested features) read back from the graph is compared with the model's, both from the raw graph and through get_deps. Non-trivial: at least three links, one of them with a condition, features or a kind other than normal.",
            assumptions: ASSUME,
            parts: vec![
                part("plain", 60_000, 3_000_000, plain, c03),
                part("mixed", 120_000, 8_000_000, mixed, c03),
                part("dense", 60_000, 3_000_000, dense, c03),
                part("pruned", 60_000, 3_000_000, pruned, c03),
                part("large", 6_000, 400_000, large, c03),
                part("namesakes", 40_000, 2_000_000, namesakes, c03), part("recorded", 4_000, 200_000, recorded::recorded, c03), part("wide", 6_000, 300_000, recorded::wide, c03),
            ],
        },
        Check {
            id: "C04",
            rule: "Worlds and configurations as for C01; the enabled features of every crate are compared with the model's least fixed point. Non-trivial: a crate that is not a root has features enabled, and there are at least two links.",
            assumptions: ASSUME,
            parts: vec![
                part("plain", 60_000, 3_000_000, plain, c04),
                part("mixed", 100_000, 6_000_000, mixed, c04),
                part("dense", 100_000, 6_000_000, dense, c04),
                part("pruned", 80_000, 6_000_000, pruned, c04),
                part("large", 6_000, 400_000, large, c04),
                part("namesakes", 40_000, 2_000_000, namesakes, c04), part("recorded", 4_000, 200_000, recorded::recorded, c04), part("wide", 6_000, 300_000, recorded::wide, c04),
            ],
        },
        Check {
            id: "C05",
            rule: "Worlds of few packages with many features and optional dependencies (several kinds and targets under one name, implicit and dep: features, strong and weak entries), with and without configuration; every optional declaration, every feature it is given and all that follows is compared with the model. Non-trivial: something optional or weak takes effect and something else optional or weak does not.",
            assumptions: ASSUME,
            parts: vec![
                part("pruned", 150_000, 8_000_000, pruned, c05),
                part("dense", 100_000, 8_000_000, dense, c05),
                part("mixed", 60_000, 4_000_000, mixed, c05),
                part("large", 4_000, 300_000, large, c05),
                part("namesakes", 40_000, 2_000_000, namesakes, c05), part("recorded", 4_000, 200_000, recorded::recorded, c05), part("wide", 6_000, 300_000, recorded::wide, c05),
            ],
        },
    ]
}

pub const ASSUME: &[&str] = &[
    "metadata documents are ones cargo (edition 2015 to 2021 feature resolver, version 1) could print; the generator's resolver simulation stands for cargo, and C26 checks the same against the real one",
    "where dependencies of a package have libraries of one name, or names that only differ in their separator, they are different packages of different name or source, none of them patched or the package itself (cargo rejects or cannot distinguish others)",
];
