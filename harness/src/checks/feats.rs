//! The feature part of the graph, feature entries, and the index.

use super::*;
use crate::core;
use crate::obs::{EdgeO, Ref};
use crate::runner::*;
use crate::world::{Kind, norm};
use krates::cm;
use proptest::collection::vec;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};

use super::build::ASSUME;

/// `dep:<rename>` gets a node of its own instead of a link to the crate
pub const KF_RENAMED: &str = "feature-node-for-renamed-dependency";
/// another dependency that has the name as its package's is linked instead
pub const KF_AMBIGUOUS: &str = "feature-link-to-other-package-of-that-name";
/// a node under the crate itself for a dependency's feature that is not enabled
pub const KF_MISSING: &str = "feature-node-for-missing-dependency-feature";

enum Item<'a> {
    Simple(&'a str),
    Dep(&'a str),
    Strong(&'a str, &'a str),
    Weak(&'a str, &'a str),
}

fn item(s: &str) -> Item<'_> {
    if let Some(n) = s.strip_prefix("dep:") {
        Item::Dep(n)
    } else if let Some((n, f)) = s.split_once("?/") {
        Item::Weak(n, f)
    } else if let Some((n, f)) = s.split_once('/') {
        Item::Strong(n, f)
    } else {
        Item::Simple(s)
    }
}

// ---- C10

fn c10<I: Input>(g: &I, cx: &mut Cx) -> R {
    let (md, conf) = g.load();
    // the names of the libraries
    let libs: BTreeMap<String, String> = md
        .packages
        .iter()
        .filter_map(|p| {
            let lib = p.targets.iter().find(|t| {
                t.kind.iter().any(|k| {
                    use cm::TargetKind as T;
                    matches!(k, T::Lib | T::RLib | T::DyLib | T::CDyLib | T::StaticLib | T::ProcMacro)
                })
            })?;
            Some((p.id.repr.clone(), norm(&lib.name)))
        })
        .collect();
    let Some(c) = core::prepare(md, &conf, cx)? else { return Ok(()) };
    c.crates()?;
    c.features()?;
    let m = &c.model;
    let edges: BTreeSet<(&Ref, &Ref, &EdgeO)> = c.obs.edges.iter().map(|(a, b, e)| (a, b, e)).collect();
    let mut nodes: BTreeMap<(&str, &str), usize> = BTreeMap::new();
    for (id, f) in &c.obs.feat_nodes {
        *nodes.entry((id, f)).or_default() += 1;
    }
    let present = |i: usize| c.exp.crates.contains(&i);
    let mut strange: Vec<(&'static str, String)> = Vec::new();
    let mut feature_links = 0;
    let mut to_dep = 0;

    // names that stand for a dependency: by its name in the manifest (right),
    // or by either of the names of the package (what the feature graph looks at)
    let lib_or_pkg = |a: usize, nd: &crate::model::MNodeDep, n: &str| {
        let md_name = libs.get(&m.pkgs[nd.to].id).cloned().unwrap_or_default();
        let p = &m.pkgs[nd.to];
        // a package that depends on itself sees its lib name, renamed or not
        let shown = if nd.toml != p.name && nd.to != a { norm(&nd.toml) } else { md_name };
        shown == n || norm(n) == shown || p.name == n || norm(&p.name) == norm(n)
    };

    for (&a, feats) in &c.exp.features {
        let p = &m.pkgs[a];
        let own = Ref::Crate(p.id.clone());
        for f in feats {
            let Some(items) = p.features.get(f) else { continue };
            let from = Ref::Feat(p.id.clone(), f.clone());
            match nodes.get(&(p.id.as_str(), f.as_str())) {
                Some(_) => {}
                None => return Err(format!("the enabled feature {f} of {} has no node", p.id)),
            }
            if !edges.contains(&(&from, &own, &EdgeO::Feature)) {
                return Err(format!("no link from the feature {f} of {} to the crate itself", p.id));
            }
            // what has to be linked
            for it in items {
                match item(it) {
                    Item::Simple(s) => {
                        let to = Ref::Feat(p.id.clone(), s.to_owned());
                        if !edges.contains(&(&from, &to, &EdgeO::Feature)) {
                            return Err(format!("no link from the feature {f} of {} to its feature {s}", p.id));
                        }
                        feature_links += 1;
                    }
                    Item::Dep(n) | Item::Strong(n, _) => {
                        let right: Vec<_> = p.deps.iter().filter(|d| d.toml == n).collect();
                        let any = p.deps.iter().filter(|d| d.toml == n || lib_or_pkg(a, d, n)).count();
                        let [nd] = right[..] else { continue };
                        if any != 1 || !present(nd.to) {
                            continue;
                        }
                        let q = &m.pkgs[nd.to];
                        let to = match item(it) {
                            Item::Strong(_, x) if c.exp.toggled.contains(&(a, nd.to, x.to_owned())) => {
                                Ref::Feat(q.id.clone(), x.to_owned())
                            }
                            Item::Dep(_) if nd.toml == q.name => Ref::Crate(q.id.clone()),
                            // see the known findings
                            _ => continue,
                        };
                        if !edges.contains(&(&from, &to, &EdgeO::Feature)) {
                            return Err(format!("no link from the feature {f} of {} to {to:?}, which its entry {it} names", p.id));
                        }
                        to_dep += 1;
                    }
                    Item::Weak(..) => {}
                }
            }
        }
    }

    // what may be linked
    for (s, d, e) in &c.obs.edges {
        let Ref::Feat(sid, f) = s else { continue };
        if *e != EdgeO::Feature {
            return Err(format!("the edge from the feature {f} of {sid} is a {e:?}"));
        }
        let a = m.index[sid];
        let p = &m.pkgs[a];
        if !c.exp.features[&a].contains(f) {
            return Err(format!("there are links from the feature {f} of {sid}, which is not enabled"));
        }
        let items: Vec<Item<'_>> = p.features.get(f).into_iter().flatten().map(|i| item(i)).collect();
        match d {
            Ref::Crate(id) if id == sid => {}
            Ref::Crate(id) => {
                let ok = |strict: bool| {
                    items.iter().any(|i| {
                        let Item::Dep(n) = i else { return false };
                        p.deps.iter().any(|nd| m.pkgs[nd.to].id == *id && (nd.toml == *n || !strict && lib_or_pkg(a, nd, n)))
                    })
                };
                if !ok(true) {
                    if !ok(false) {
                        return Err(format!("the feature {f} of {sid} is linked to {id}, which it does not name"));
                    }
                    strange.push((KF_AMBIGUOUS, format!("the feature {f} of {sid} is linked to {id}")));
                }
            }
            Ref::Feat(id, x) if id == sid && items.iter().any(|i| matches!(i, Item::Simple(s) if s == x)) => {}
            Ref::Feat(id, x) => {
                let named = |strict: bool| {
                    items.iter().any(|i| match i {
                        Item::Strong(n, y) | Item::Weak(n, y) => {
                            y == x && p.deps.iter().any(|nd| m.pkgs[nd.to].id == *id && (nd.toml == *n || !strict && lib_or_pkg(a, nd, n)))
                        }
                        _ => false,
                    })
                };
                if named(true) {
                    if !c.obs.features[id].contains(x) {
                        // strong entries, and weak ones behind a feature of
                        // the dependency's name: all that is known to do this
                        let known = items.iter().any(|i| match i {
                            Item::Strong(_, y) => y == x,
                            Item::Weak(n, y) => y == x && p.resolved.contains(*n),
                            _ => false,
                        });
                        if !known {
                            return Err(format!("the feature {f} of {sid} is linked to {x} of {id}, which is not enabled"));
                        }
                        strange.push((KF_MISSING, format!("{sid}/{f} -> {id}/{x}")));
                    }
                    continue;
                }
                if named(false) {
                    strange.push((KF_AMBIGUOUS, format!("the feature {f} of {sid} is linked to {x} of {id}")));
                    continue;
                }
                // a node for the name of a renamed dependency, under the crate
                // itself or, if that has a feature of the name, the dependency
                let by_rename = items.iter().any(|i| {
                    matches!(i, Item::Dep(n) if *x == **n && p.deps.iter().any(|nd| {
                        (nd.toml == *n || lib_or_pkg(a, nd, n)) && (id == sid || m.pkgs[nd.to].id == *id) && m.pkgs[nd.to].name != **n && present(nd.to)
                    }))
                });
                if !by_rename {
                    return Err(format!("the feature {f} of {sid} is linked to {x} of {id}, which it does not name"));
                }
                strange.push((KF_RENAMED, format!("the feature {f} of {sid} is linked to a feature {x} of {id} for the dependency")));
            }
        }
    }

    // every feature node stands for an enabled feature, once
    for ((id, f), n) in &nodes {
        let a = m.index[*id];
        let enabled = c.obs.features[*id].contains(*f);
        if enabled && *n == 1 {
            continue;
        }
        // the nodes that stand for renamed dependencies
        let renames = c.obs.features[*id]
            .iter()
            .flat_map(|g| m.pkgs[a].features.get(g).into_iter().flatten())
            .filter(|i| {
                matches!(item(i), Item::Dep(d) if d == *f && m.pkgs[a].deps.iter().any(|nd| {
                    (nd.toml == d || lib_or_pkg(a, nd, d)) && present(nd.to) && m.pkgs[nd.to].name != d
                }))
            })
            .count();
        // a link from a feature of a dependent, which has been explained above
        let reached = c.obs.edges.iter().any(|(s, d, _)| {
            matches!((s, d), (Ref::Feat(si, _), Ref::Feat(di, df)) if di == id && df == f && m.pkgs[m.index[si]].deps.iter().any(|nd| nd.to == a))
        });
        if *n > renames + usize::from(enabled || reached) {
            return Err(format!("there are {n} nodes for the feature {f} of {id} (enabled: {enabled})"));
        }
        if renames > 0 {
            strange.push((KF_RENAMED, format!("{n} nodes for the feature {f} of {id}")));
        }
    }
    for (sig, msg) in &strange {
        cx.label(sig);
        cx.finding(sig, || msg.clone())?;
    }
    cx.label_if(feature_links > 0, "feature to feature");
    cx.label_if(to_dep > 0, "feature to dependency");
    cx.nontrivial_if(feature_links > 0 && to_dep > 0);
    cx.sample(|| json!({"feature nodes": c.obs.feat_nodes, "links between features": feature_links, "links to dependencies": to_dep}));
    Ok(())
}

// ---- C27

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct EntryG {
    kind: u8,
    krate: String,
    feature: String,
}

fn entry_g() -> BoxedStrategy<EntryG> {
    let name = prop_oneof![6 => "[A-Za-z0-9_][A-Za-z0-9_+.-]{0,12}", 1 => "(dep|de|d|default|weak)[a-z_+.-]{0,3}"];
    let krate = prop_oneof![6 => "[A-Za-z_ßé][A-Za-z0-9_é-]{0,12}", 1 => "(dep|de|d|default|weak)[a-z_-]{0,3}"];
    (any::<u8>(), krate, name).prop_map(|(kind, krate, feature)| EntryG { kind, krate, feature }).boxed()
}

fn c27(g: &EntryG, cx: &mut Cx) -> R {
    use krates::Feature as F;
    let (k, f) = (g.krate.as_str(), g.feature.as_str());
    let (text, want) = match g.kind % 4 {
        0 => (format!("dep:{k}"), F::Krate(k)),
        1 => (format!("{k}?/{f}"), F::Weak { krate: k, feature: f }),
        2 => (format!("{k}/{f}"), F::Strong { krate: k, feature: f }),
        _ => (f.to_owned(), F::Simple(f)),
    };
    cx.label(["dep:", "weak", "strong", "simple"][g.kind as usize % 4]);
    let p = krates::ParsedFeature::from(text.as_str());
    if p.feat() != want {
        return Err(format!("{text:?} parsed as {:?}, not {want:?}", p.feat()));
    }
    if p.feat() != krates::ParsedFeature::from(text.as_str()).feat() {
        return Err(format!("{text:?} parses differently each time"));
    }
    if format!("{p:?}") != text {
        return Err(format!("{text:?} shows as {p:?}"));
    }
    // and back to the text
    let back = match p.feat() {
        F::Krate(k) => format!("dep:{k}"),
        F::Weak { krate, feature } => format!("{krate}?/{feature}"),
        F::Strong { krate, feature } => format!("{krate}/{feature}"),
        F::Simple(s) => s.to_owned(),
    };
    if back != text {
        return Err(format!("{text:?} turned into {back:?}"));
    }
    cx.nontrivial_if(g.kind % 4 != 3);
    cx.sample(|| json!({"entry": text, "parsed": format!("{:?}", p.feat())}));
    Ok(())
}

fn any_text() -> BoxedStrategy<String> {
    prop_oneof!["[a-z:?/é-]{0,12}", "d?e?p?:?[a-z?/]{0,3}", "(dep:)?[a-z?/:]{0,6}(\\?/|/)?[a-z?/]{0,4}", "\\PC{0,20}"].boxed()
}

/// Whatever the text, it is cut into pieces that are all there
fn c27_any(t: &String, cx: &mut Cx) -> R {
    use krates::Feature as F;
    let p = krates::ParsedFeature::from(t.as_str());
    let back = match p.feat() {
        F::Krate(k) => format!("dep:{k}"),
        F::Weak { krate, feature } => {
            format!("{krate}?/{feature}")
        }
        F::Strong { krate, feature } => {
            format!("{krate}/{feature}")
        }
        F::Simple(s) => {
            if s.contains('/') || s.starts_with("dep:") {
                return Err(format!("{t:?}: taken for the name of a feature"));
            }
            s.to_owned()
        }
    };
    if back != *t {
        return Err(format!("{t:?} turned into {back:?}"));
    }
    cx.nontrivial_if(t.contains(['/', ':']));
    Ok(())
}

// ---- C24

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct IndexG {
    wc: WC,
    /// which features the document lost, and how the index has them
    cut: Vec<u8>,
    /// extra versions of each crate in the index
    extra: Vec<u8>,
}

fn index_g() -> BoxedStrategy<IndexG> {
    (
        prop_oneof![dense(), mixed()],
        vec(any::<u8>(), 1..12),
        vec(any::<u8>(), 1..6),
    )
        .prop_map(|(wc, cut, extra)| IndexG { wc, cut, extra })
        .boxed()
}

fn c24(g: &IndexG, cx: &mut Cx) -> R {
    use krates::index::{BuildIndexCache, IndexKrate, IndexKrateVersion};
    use std::sync::{Arc, Mutex};
    let (w, conf) = g.wc.decode();
    let full = w.metadata();
    let mut cut = full.clone();
    let mut at = 0;
    let mut next = || {
        at += 1;
        g.cut[at % g.cut.len()].wrapping_mul(((at / g.cut.len()) as u8).wrapping_mul(2) | 1)
    };
    let mut index: BTreeMap<String, Option<IndexKrate>> = BTreeMap::new();
    let mut removed = 0;
    let mut left_out = 0;
    let mut decoys = 0;
    for p in &mut cut.packages {
        let is_crates_io = p.source.as_ref().is_some_and(|s| s.repr == "registry+https://github.com/rust-lang/crates.io-index");
        let versions = &mut index
            .entry(p.name.clone())
            .or_insert_with(|| Some(IndexKrate { versions: Vec::new() }))
            .as_mut()
            .unwrap()
            .versions;
        if !is_crates_io {
            // the same name and version on crates.io is another package
            if !versions.iter().any(|v| v.version == p.version)
                && !full.packages.iter().any(|q| {
                    q.name == p.name && q.version == p.version && q.source.as_ref().is_some_and(|s| s.is_crates_io())
                })
            {
                versions.push(IndexKrateVersion {
                    version: p.version.clone(),
                    features: [("kv-not-this-one".to_owned(), vec![])].into(),
                });
                decoys += 1;
            }
            continue;
        }
        let all = p.features.clone();
        // optional dependencies that old versions of cargo did not spell out
        let mentioned: BTreeSet<&String> = all.values().flatten().collect();
        let implicit: BTreeSet<&String> = all
            .iter()
            .filter(|(n, items)| items.len() == 1 && items[0] == format!("dep:{n}") && mentioned.contains(n))
            .map(|(n, _)| n)
            .collect();
        let old_style = next() % 3 == 0;
        let mut in_index = BTreeMap::new();
        for (n, items) in &all {
            let drop_here = next() % 3 == 0;
            let drop_there = old_style && implicit.contains(n);
            if drop_here || drop_there {
                p.features.remove(n);
                removed += 1;
            }
            if drop_there {
                left_out += 1;
            } else if drop_here || next() % 2 == 0 {
                in_index.insert(n.clone(), items.clone());
            }
            // what the document has wins over what the index has
            if !drop_here && !drop_there && next() % 8 == 0 {
                in_index.insert(n.clone(), vec!["dep:kv-nothing".to_owned()]);
            }
        }
        let mut own = IndexKrateVersion {
            version: p.version.clone(),
            features: in_index,
        };
        for e in &g.extra {
            let v = semver::Version::new(u64::from(e % 4), u64::from(e / 4 % 4), u64::from(e / 16));
            if !full.packages.iter().any(|q| q.name == p.name && q.version == v) && !versions.iter().any(|x| x.version == v) {
                let extra = IndexKrateVersion {
                    version: v,
                    features: [("kv-other-version".to_owned(), vec!["dep:kv-nothing".to_owned()])].into(),
                };
                if e % 2 == 0 {
                    versions.push(extra);
                } else {
                    versions.insert(0, extra);
                }
            }
        }
        // build metadata is part of a version here
        std::mem::swap(&mut own.version.pre, &mut semver::Prerelease::EMPTY.clone());
        own.version = p.version.clone();
        versions.push(own);
    }
    // names the index knows nothing about
    for (i, n) in full.packages.iter().map(|p| p.name.clone()).enumerate() {
        let lost = full.packages.iter().zip(&cut.packages).any(|(a, b)| a.name == n && a.features != b.features);
        if !lost && g.extra[i % g.extra.len()] % 4 == 0 {
            if g.extra[i % g.extra.len()] % 8 == 0 {
                index.insert(n, None);
            } else {
                index.remove(&n);
            }
        }
    }
    let names: BTreeSet<String> = full.packages.iter().map(|p| p.name.clone()).collect();
    let asked = Arc::new(Mutex::new(Vec::new()));
    let a2 = asked.clone();
    let answer: BuildIndexCache = Box::new(move |names| {
        a2.lock().unwrap().push(names);
        index
    });
    let mut b = conf.builder();
    b.with_crates_io_index(answer);
    let fixed = guard(|| b.build_with_metadata::<cm::Package, krates::Edge, _>(cut, krates::NoneFilter))?;
    let asked = std::mem::take(&mut *asked.lock().unwrap());
    if asked != [names.clone()] {
        return Err(format!("the index was asked for {asked:?}, the packages are {names:?}"));
    }
    let whole = guard(|| conf.builder().build_with_metadata::<cm::Package, krates::Edge, _>(full, krates::NoneFilter))?;
    match (fixed, whole) {
        (Ok(a), Ok(b)) => {
            let (x, y) = (super::filters::dump(&a), super::filters::dump(&b));
            if x != y {
                return Err(format!("with the lost features taken from the index the graph is\n{x}\ninstead of\n{y}"));
            }
            for (p, q) in a.krates().zip(b.krates()) {
                if p.features != q.features {
                    return Err(format!("{}: features {:?} instead of {:?}", p.id, p.features, q.features));
                }
            }
            cx.nontrivial_if(removed > 0 && a.krates().any(|p| p.source.as_ref().is_some_and(|s| s.is_crates_io())));
            cx.sample(|| json!({"features lost": removed, "left to be implied": left_out, "crates": a.len()}));
        }
        (Err(krates::Error::NoRootKrates), Err(krates::Error::NoRootKrates)) => {}
        (a, b) => return Err(format!("with the index: {:?}, with the whole document: {:?}", a.err(), b.err())),
    }
    cx.label_if(removed > 0, "features lost");
    cx.label_if(left_out > 0, "implied features");
    cx.label_if(decoys > 0, "same name elsewhere");
    let _ = Kind::Normal;
    Ok(())
}

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C10",
            rule: "Worlds of few packages with many features, with and without configuration. Every enabled feature must have its node, its link to the crate and a link for each entry that names a feature or dependency in the graph; every link there is must come from an entry of an enabled feature. Non-trivial: entries that name other features of the crate and ones that name dependencies are both linked.",
            assumptions: ASSUME,
            parts: vec![
                part("dense", 120_000, 6_000_000, dense, c10),
                part("mixed", 60_000, 4_000_000, mixed, c10),
                part("namesakes", 40_000, 2_000_000, namesakes, c10), part("recorded", 6_000, 300_000, recorded::recorded, c10), part("wide", 6_000, 300_000, recorded::wide, c10),
            ],
        },
        Check {
            id: "C24",
            rule: "Worlds whose crates.io packages lose generated features from the document, which a generated index still has (other versions, the same name from other sources, implied optional features left out as in old index entries, unknown names); the graph and the packages must be those of the whole document, and the index be asked once, for all the names. Non-trivial: a feature was lost and a crates.io package is in the graph.",
            assumptions: ASSUME,
            parts: vec![part("index", 80_000, 5_000_000, index_g, c24)],
        },
        Check {
            id: "C27",
            rule: "Feature entries composed from generated names in each of the four forms, and arbitrary text. Composed ones must come apart into the pieces they were made of, any text into pieces that make it up again. Non-trivial: the entry has a separator.",
            assumptions: &["names are ones cargo accepts for packages and features"],
            parts: vec![
                part("composed", 300_000, 20_000_000, entry_g, c27),
                part("any", 200_000, 20_000_000, any_text, c27_any),
            ],
        },
    ]
}
