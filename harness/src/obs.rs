//! What a built graph actually contains, in a comparable form.

use crate::world::Kind;
use krates::{Edge, Kid, Krates, Node, NodeId};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Ref {
    Crate(String),
    Feat(String, String),
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum EdgeO {
    Dep(Kind, Option<String>),
    DepFeature(Kind, Option<String>),
    Feature,
}

pub struct Obs {
    /// crate ids in node order
    pub crates: Vec<String>,
    pub features: BTreeMap<String, BTreeSet<String>>,
    pub edges: Vec<(Ref, Ref, EdgeO)>,
    /// feature nodes in node order
    pub feat_nodes: Vec<(String, String)>,
}

pub fn kid(id: &str) -> Kid {
    Kid::from(krates::PackageId { repr: id.to_owned() })
}

/// Ids are reported as the original text of the metadata, which `Kid` may have
/// decoded
pub fn observe<N>(k: &Krates<N, Edge>, id_of: &dyn Fn(&N) -> String) -> Result<Obs, String> {
    let g = k.graph();
    let mut crates = Vec::new();
    let mut features = BTreeMap::new();
    let mut feat_nodes = Vec::new();
    let refs: Vec<Ref> = {
        let mut v = Vec::new();
        for (i, n) in g.raw_nodes().iter().enumerate() {
            v.push(match &n.weight {
                Node::Krate { krate, features: f, .. } => {
                    if i >= k.len() {
                        return Err(format!("node {i} is a crate, but only the first {} nodes should be", k.len()));
                    }
                    let id = id_of(krate);
                    crates.push(id.clone());
                    if features.insert(id.clone(), f.clone()).is_some() {
                        return Err(format!("crate {id} has two nodes"));
                    }
                    Ref::Crate(id)
                }
                Node::Feature { krate_index, name } => {
                    if i < k.len() {
                        return Err(format!("node {i} is a feature, but the first {} nodes should be crates", k.len()));
                    }
                    let Some(Node::Krate { krate, .. }) = g.node_weight(*krate_index) else {
                        return Err(format!("feature node {i} ({name}) does not belong to a crate node"));
                    };
                    let id = id_of(krate);
                    feat_nodes.push((id.clone(), name.clone()));
                    Ref::Feat(id, name.clone())
                }
            });
        }
        v
    };
    let edges = g
        .raw_edges()
        .iter()
        .map(|e| {
            let w = match &e.weight {
                Edge::Dep { kind, cfg } => EdgeO::Dep(Kind::of_krates(*kind), cfg.clone()),
                Edge::DepFeature { kind, cfg } => EdgeO::DepFeature(Kind::of_krates(*kind), cfg.clone()),
                Edge::Feature => EdgeO::Feature,
            };
            (refs[e.source().index()].clone(), refs[e.target().index()].clone(), w)
        })
        .collect();
    Ok(Obs {
        crates,
        features,
        edges,
        feat_nodes,
    })
}

impl Obs {
    pub fn crate_set(&self) -> BTreeSet<String> {
        self.crates.iter().cloned().collect()
    }

    /// Crate-level links: (from, to, kind, cfg) with the features they carry
    pub fn links(&self) -> BTreeMap<(String, String, Kind, Option<String>), BTreeSet<String>> {
        let mut m: BTreeMap<_, BTreeSet<String>> = BTreeMap::new();
        for (s, d, e) in &self.edges {
            let Ref::Crate(s) = s else { continue };
            match (d, e) {
                (Ref::Crate(d), EdgeO::Dep(k, c)) => {
                    m.entry((s.clone(), d.clone(), *k, c.clone())).or_default();
                }
                (Ref::Feat(d, f), EdgeO::DepFeature(k, c)) => {
                    m.entry((s.clone(), d.clone(), *k, c.clone())).or_default().insert(f.clone());
                }
                _ => {}
            }
        }
        m
    }
}

pub fn nid(i: usize) -> NodeId {
    NodeId::new(i)
}
