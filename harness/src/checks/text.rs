//! C30: what graphs, ids, kinds and errors are shown as.

use super::*;
use crate::core;
use crate::obs::{EdgeO, Ref, observe};
use crate::runner::*;
use crate::world::Kind;
use krates::petgraph::dot::Dot;
use krates::{Node, cm};
use proptest::collection::vec;
use serde_json::json;
use std::collections::BTreeMap;
use std::error::Error as _;
use std::fmt;

use super::build::ASSUME;

/// A node type with texts of its own
struct Shown(String, String);

impl From<cm::Package> for Shown {
    fn from(p: cm::Package) -> Self {
        Self(format!("<{}|{}>", p.name, p.version), p.id.repr)
    }
}

impl fmt::Display for Shown {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str(&self.0)
    }
}

impl fmt::Debug for Shown {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "[[{}]]", self.1)
    }
}

fn edge_text(e: &EdgeO) -> String {
    let (EdgeO::Dep(k, c) | EdgeO::DepFeature(k, c)) = e else { return String::new() };
    let kind = match k {
        Kind::Normal => "",
        Kind::Build => "(build)",
        Kind::Dev => "(dev)",
    };
    match c {
        Some(c) => format!("{kind} '{c}'"),
        None => kind.to_owned(),
    }
}

fn unescape(s: &str) -> String {
    let mut out = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        match c {
            '\\' => match it.next() {
                Some('l') => out.push('\n'),
                Some(c) => out.push(c),
                None => {}
            },
            c => out.push(c),
        }
    }
    out
}

/// The nodes and edges of a dot graph, with their labels
type Lines = (BTreeMap<usize, String>, Vec<(usize, usize, String)>);

fn read_dot(text: &str) -> Option<Lines> {
    let body = text.strip_prefix("digraph {\n")?.trim_end().strip_suffix('}')?;
    let (mut nodes, mut edges) = (BTreeMap::new(), Vec::new());
    for line in body.lines() {
        let (at, label) = line.trim().split_once(" [ label = \"")?;
        let label = unescape(label.strip_suffix("\" ]")?);
        match at.split_once(" -> ") {
            Some((a, b)) => edges.push((a.parse().ok()?, b.parse().ok()?, label)),
            None => {
                if nodes.insert(at.parse().ok()?, label).is_some() {
                    return None;
                }
            }
        }
    }
    Some((nodes, edges))
}

fn graph(g: &WC, cx: &mut Cx) -> R {
    let (w, conf) = g.decode();
    let core::Built::Graph { k: plain } = core::build(w.metadata(), &conf)? else { return Ok(()) };
    let obs = observe(&plain, &|p: &cm::Package| p.id.repr.clone())?;
    let md = w.metadata();
    let names: BTreeMap<String, (String, String)> =
        md.packages.iter().map(|p| (p.id.repr.clone(), (p.name.clone(), p.version.to_string()))).collect();
    let k = guard(|| conf.builder().build_with_metadata::<Shown, krates::Edge, _>(md, krates::NoneFilter))?.map_err(|e| e.to_string())?;
    let (g0, g1) = (plain.graph(), k.graph());
    if g0.node_count() != g1.node_count() || g0.edge_count() != g1.edge_count() {
        return Err("the graph depends on the type of its nodes".to_owned());
    }
    let mut want: Lines = Default::default();
    let mut refs = Vec::new();
    let mut kinds = std::collections::BTreeSet::new();
    for (i, id) in obs.crates.iter().enumerate() {
        let (n, v) = &names[id];
        want.0.insert(i, format!("crate <{n}|{v}>"));
        refs.push(Ref::Crate(id.clone()));
        let node = &g1.raw_nodes()[i].weight;
        let Node::Krate { id: kid, .. } = node else { return Err(format!("node {i} is no crate")) };
        let debug = format!("crate {} [[{id}]]", kid.repr);
        if format!("{node:?}") != debug {
            return Err(format!("the node of {id} is shown for debugging as {node:?}, not as {debug}"));
        }
        if kid.to_string() != kid.repr {
            return Err(format!("the id {} is shown as {kid}", kid.repr));
        }
        // the name, version, and the source unless that is crates.io
        let (dn, dv, ds) = (format!("name: {:?}", kid.name()), format!("version: {:?}", kid.version()), format!("source: {:?}", kid.source()));
        let d = format!("{kid:?}");
        let other = kid.source() != "registry+https://github.com/rust-lang/crates.io-index";
        if !d.contains(&dn) || !d.contains(&dv) || d.contains(&ds) != other {
            return Err(format!("the id {} is shown for debugging as {d}", kid.repr));
        }
    }
    for (id, f) in &obs.feat_nodes {
        let i = refs.len();
        want.0.insert(i, format!("feature {f}"));
        refs.push(Ref::Feat(id.clone(), f.clone()));
        let node = &g1.raw_nodes()[i].weight;
        if format!("{node:?}") != format!("feature {f}") {
            return Err(format!("the node of the feature {f} is shown for debugging as {node:?}"));
        }
    }
    for (e, raw) in obs.edges.iter().zip(g1.raw_edges()) {
        want.1.push((raw.source().index(), raw.target().index(), edge_text(&e.2)));
        if (&refs[raw.source().index()], &refs[raw.target().index()]) != (&e.0, &e.1) {
            return Err("the graph depends on the type of its nodes".to_owned());
        }
        if let EdgeO::Dep(k, _) | EdgeO::DepFeature(k, _) = e.2 {
            kinds.insert(k);
        }
    }
    let dot = guard(|| Dot::new(g1).to_string())?;
    let Some(got) = read_dot(&dot) else { return Err(format!("the dot graph cannot be read:\n{dot}")) };
    if got != want {
        let node = want.0.iter().find(|(i, l)| got.0.get(i) != Some(*l));
        let edge = want.1.iter().zip(&got.1).find(|(a, b)| a != b);
        return Err(format!("the dot graph differs: node {node:?}, edge {edge:?}, {} and {} nodes", want.0.len(), got.0.len()));
    }
    let conditions = obs.edges.iter().any(|e| matches!(&e.2, EdgeO::Dep(_, Some(_)) | EdgeO::DepFeature(_, Some(_))));
    cx.label_if(conditions, "conditions");
    cx.label_if(kinds.len() > 1, "several kinds");
    cx.nontrivial_if(kinds.len() > 1 && !obs.feat_nodes.is_empty());
    cx.sample(|| json!(dot.lines().take(12).collect::<Vec<_>>()));
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ErrG {
    kind: u8,
    text: String,
    bytes: Vec<u8>,
}

fn err_g() -> BoxedStrategy<ErrG> {
    (any::<u8>(), "\\PC{0,24}(\n\\PC{0,10})?", vec(any::<u8>(), 0..12))
        .prop_map(|(kind, text, bytes)| ErrG { kind, text, bytes })
        .boxed()
}

/// Errors say what happened, and what underlies them
fn errors(g: &ErrG, cx: &mut Cx) -> R {
    use krates::Error as E;
    use krates::cm::Error as C;
    let utf = String::from_utf8(g.bytes.clone()).err();
    let (inner, under): (C, Option<String>) = match g.kind % 7 {
        0 => (C::CargoMetadata { stderr: g.text.clone() }, None),
        1 => {
            let e = std::io::Error::other(g.text.clone());
            let t = e.to_string();
            (e.into(), Some(t))
        }
        2 => match utf {
            None => return Ok(()),
            Some(e) => (C::from(e.utf8_error()), Some(e.utf8_error().to_string())),
        },
        3 => match utf {
            None => return Ok(()),
            Some(e) => {
                let t = e.to_string();
                (C::from(e), Some(t))
            }
        },
        4 => match serde_json::from_str::<cm::Metadata>(&g.text) {
            Ok(_) => return Ok(()),
            Err(e) => {
                let t = e.to_string();
                (C::from(e), Some(t))
            }
        },
        5 => (C::NoJson, None),
        _ => {
            // of the crate itself
            let bad = format!("{}@", g.text);
            let (e, has) = match g.bytes.len() % 3 {
                0 => (E::NoResolveGraph, None),
                1 => (E::NoRootKrates, None),
                _ => match bad.parse::<krates::PkgSpec>() {
                    Err(E::InvalidPkgSpec(r)) => (E::InvalidPkgSpec(r), Some(r)),
                    Err(e) => return Err(format!("{bad:?} is refused with {e:?}")),
                    Ok(_) => return Ok(()),
                },
            };
            let t = e.to_string();
            if t.is_empty() || has.is_some_and(|r| !t.contains(r)) {
                return Err(format!("{e:?} is shown as {t:?}"));
            }
            if e.source().is_some() {
                return Err(format!("{e:?} has a source"));
            }
            cx.label("the crate's own");
            return Ok(());
        }
    };
    cx.label(["cargo failed", "io", "stdout", "stderr", "json", "no json", ""][g.kind as usize % 7]);
    let variant = matches!(
        (&inner, g.kind % 7),
        (C::CargoMetadata { .. }, 0) | (C::Io(_), 1) | (C::Utf8(_), 2) | (C::ErrUtf8(_), 3) | (C::Json(_), 4) | (C::NoJson, 5)
    );
    if !variant {
        return Err(format!("turned into the error {inner:?}"));
    }
    let t = inner.to_string();
    let says = match g.kind % 7 {
        0 => g.text.as_str(),
        2 => "stdout",
        3 => "stderr",
        4 | 5 => "json",
        _ => "",
    };
    if t.is_empty() || !t.contains(says) || under.as_ref().is_some_and(|u| !t.contains(u)) {
        return Err(format!("{inner:?} is shown as {t:?}"));
    }
    if inner.source().map(|e| e.to_string()) != under {
        return Err(format!("{inner:?} has the source {:?}, not {under:?}", inner.source()));
    }
    let outer = E::from(inner);
    if !matches!(outer, E::Metadata(_)) {
        return Err(format!("turned into {outer:?}"));
    }
    if outer.to_string() != t {
        return Err(format!("{outer:?} is shown as {:?}", outer.to_string()));
    }
    // the whole chain is there
    let mut chain = Vec::new();
    let mut at = outer.source();
    while let Some(e) = at {
        chain.push(e.to_string());
        at = e.source();
    }
    let want: Vec<String> = std::iter::once(t).chain(under).collect();
    if chain.len() < want.len() || chain[..want.len()] != want[..] {
        return Err(format!("{outer:?} comes from {chain:?}, not {want:?}"));
    }
    cx.nontrivial_if(want.len() > 1 || g.kind % 7 == 0);
    cx.sample(|| json!({"shown": outer.to_string(), "chain": chain}));
    Ok(())
}

/// The two types for kinds say the same
fn kinds(g: &(u8, u8), cx: &mut Cx) -> R {
    use cm::DependencyKind as D;
    use krates::DepKind as K;
    let all = [(D::Normal, K::Normal, "normal", ""), (D::Build, K::Build, "build", "build"), (D::Development, K::Dev, "dev", "dev")];
    let (a, b) = (all[g.0 as usize % 3], all[g.1 as usize % 3]);
    let same = a.2 == b.2;
    if (K::from(a.0) == b.1) != same || (a.1 == b.0) != same || (a.1 == b.1) != same || (a.0 == b.0) != same {
        return Err(format!("{a:?} and {b:?} are taken for {}", if same { "different ones" } else { "the same" }));
    }
    if a.0.to_string() != a.2 || a.1.to_string() != a.3 {
        return Err(format!("{a:?} is shown as {} and {}", a.0, a.1));
    }
    if D::default() != D::Normal {
        return Err("the default is not a normal dependency".to_owned());
    }
    cx.nontrivial_if(true);
    Ok(())
}

fn kinds_g() -> BoxedStrategy<(u8, u8)> {
    (0u8..3, 0u8..3).boxed()
}

fn both() -> BoxedStrategy<WC> {
    prop_oneof![mixed(), dense(), plain()].boxed()
}

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C30",
        rule: "graph: worlds and configurations as for C01, built with a node type that has texts of its own; nodes, links and ids as they are shown, and the dot graph of all of it read back, must say what the graph has. errors: errors of every sort over any text, their texts and sources. kinds: the two types for dependency kinds against one another. Non-trivial: links of several kinds and a feature node; an error with a source or cargo's own words.",
        assumptions: ASSUME,
        parts: vec![
            part("graph", 80_000, 5_000_000, both, graph),
            part("errors", 60_000, 1_000_000, err_g, errors),
            part("kinds", 100, 1_000, kinds_g, kinds),
        ],
    }]
}
