//! Questions asked of a finished graph, and how little its making depends on.

use super::build::ASSUME;
use super::filters::{dump, graph, look};
use super::*;
use crate::core::{self, K};
use crate::obs::{EdgeO, Ref, kid, nid};
use crate::runner::*;
use crate::world::Kind;
use krates::cm;
use proptest::collection::vec;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet, VecDeque};

fn both() -> BoxedStrategy<WC> {
    prop_oneof![2 => mixed(), 1 => dense(), 1 => plain()].boxed()
}

// ---- C13

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct PermG {
    wc: WC,
    perm: Vec<u8>,
    rewrite: bool,
}

fn perm_g() -> BoxedStrategy<PermG> {
    (
        prop_oneof![3 => mixed(), 2 => dense(), 1 => large()],
        prop_oneof![1 => Just(vec![]), 4 => vec(any::<u8>(), 1..10)],
        any::<bool>(),
    )
        .prop_map(|(wc, perm, rewrite)| PermG { wc, perm, rewrite })
        .boxed()
}

type Flat = (Vec<String>, BTreeMap<String, BTreeSet<String>>, Vec<(String, String)>, Vec<(Ref, Ref, EdgeO)>);

fn flat(k: &K, name: &BTreeMap<String, String>) -> Result<Flat, String> {
    let o = look(k)?;
    let re = |r: &Ref| match r {
        Ref::Crate(c) => Ref::Crate(name[c].clone()),
        Ref::Feat(c, f) => Ref::Feat(name[c].clone(), f.clone()),
    };
    let mut nodes: Vec<_> = o.feat_nodes.iter().map(|(c, f)| (name[c].clone(), f.clone())).collect();
    nodes.sort();
    let mut edges: Vec<_> = o.edges.iter().map(|(a, b, e)| (re(a), re(b), e.clone())).collect();
    edges.sort();
    Ok((
        o.crates.iter().map(|c| name[c].clone()).collect(),
        o.features.iter().map(|(c, f)| (name[c].clone(), f.clone())).collect(),
        nodes,
        edges,
    ))
}

type Built2 = (K, K, Flat);

/// Two documents for the same packages, and what their ids stand for
fn same_graph(
    conf: &crate::model::Conf,
    (md1, n1): (cm::Metadata, &BTreeMap<String, String>),
    (md2, n2): (cm::Metadata, &BTreeMap<String, String>),
) -> Result<Option<Built2>, String> {
    let build = |md: cm::Metadata| {
        let mut gone = Vec::new();
        let r = guard(|| {
            conf.builder()
                .build_with_metadata::<cm::Package, krates::Edge, _>(md, |p: cm::Package| gone.push(p.id.repr))
        })?;
        match r {
            Ok(k) => Ok(Some((k, gone))),
            Err(krates::Error::NoRootKrates) => Ok(None),
            Err(e) => Err(format!("building failed: {e}")),
        }
    };
    let (a, b) = (build(md1)?, build(md2)?);
    let ((a, ga), (b, gb)) = match (a, b) {
        (None, None) => return Ok(None),
        (Some(a), Some(b)) => (a, b),
        (a, _) => return Err(format!("only one of the two documents has no root left: {}", if a.is_none() { "the first" } else { "the second" })),
    };
    let (fa, fb) = (flat(&a, n1)?, flat(&b, n2)?);
    if fa.0 != fb.0 {
        return Err(format!("the crates are {:?} and {:?}", fa.0, fb.0));
    }
    if fa.1 != fb.1 {
        return Err(format!("the features are {:?} and {:?}", fa.1, fb.1));
    }
    if fa.2 != fb.2 {
        return Err(format!("the feature nodes are {:?} and {:?}", fa.2, fb.2));
    }
    if fa.3 != fb.3 {
        let only = |x: &Flat, y: &Flat| x.3.iter().filter(|e| !y.3.contains(e)).take(4).cloned().collect::<Vec<_>>();
        return Err(format!("the edges differ: {:#?} and {:#?}", only(&fa, &fb), only(&fb, &fa)));
    }
    let set = |g: &[String], n: &BTreeMap<String, String>| -> BTreeSet<String> { g.iter().map(|i| n[i].clone()).collect() };
    if set(&ga, n1) != set(&gb, n2) || ga.len() != gb.len() {
        return Err(format!("filtered are {ga:?} and {gb:?}"));
    }
    Ok(Some((a, b, fa)))
}

/// The document as cargo would have printed it on Windows
fn c13_windows(g: &WC, cx: &mut Cx) -> R {
    let (w, mut conf) = g.decode();
    // the paths of members would have to exist
    conf.include.clear();
    conf.exclude.retain(|s| !s.starts_with("file://"));
    let md = w.metadata();
    let md2 = on_windows(&md)?;
    let n1: BTreeMap<String, String> =
        w.pkgs.iter().enumerate().map(|(i, p)| (p.id(w.opaque), format!("{i}: {} {}", p.name, p.version))).collect();
    let n2 = n1.iter().map(|(id, n)| (windows_url(id), n.clone())).collect();
    let Some((_, b, f)) = same_graph(&conf, (md, &n1), (md2, &n2))? else { return Ok(()) };
    if !b.workspace_root().as_str().starts_with("D:\\kv-none") {
        return Err(format!("the workspace root is {}", b.workspace_root()));
    }
    let paths = w.pkgs.iter().filter(|p| matches!(p.src, crate::world::Src::Path { .. })).count();
    cx.label_if(paths > 2, "more than two local packages");
    cx.nontrivial_if(f.0.len() >= 3 && paths > 1 && !f.3.is_empty());
    cx.sample(|| json!({"ids": n2.keys().collect::<Vec<_>>(), "crates": f.0}));
    Ok(())
}

fn windows_url(s: &str) -> String {
    s.replace("path+file:///kv-none", "path+file:///D:/kv-none")
}

/// The document of the same workspace below `D:\kv-none`
fn on_windows(md: &cm::Metadata) -> Result<cm::Metadata, String> {
    fn walk(v: &mut serde_json::Value, f: &dyn Fn(&str) -> String) {
        match v {
            serde_json::Value::String(s) => *s = f(s),
            serde_json::Value::Array(l) => l.iter_mut().for_each(|v| walk(v, f)),
            serde_json::Value::Object(m) => m.values_mut().for_each(|v| walk(v, f)),
            _ => {}
        }
    }
    let mut v = serde_json::to_value(md).map_err(|e| format!("harness: {e}"))?;
    walk(&mut v, &|s| {
        if s.starts_with("/kv-none") {
            format!("D:{}", s.replace('/', "\\"))
        } else {
            windows_url(s)
        }
    });
    serde_json::from_value(v).map_err(|e| format!("the document is refused: {e}"))
}

fn shuffle<T>(perm: &[u8], at: &mut usize, v: &mut [T]) {
    if perm.is_empty() {
        return;
    }
    for i in (1..v.len()).rev() {
        *at += 1;
        let b = perm[*at % perm.len()] as usize + *at / perm.len() * 7;
        v.swap(i, b % (i + 1));
    }
}

/// A recorded document, in another order and with ids of the other format
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RecPermG {
    rec: recorded::RecG,
    perm: Vec<u8>,
    other: bool,
}

fn rec_perm() -> BoxedStrategy<RecPermG> {
    (recorded::recorded(), vec(any::<u8>(), 1..10), any::<bool>())
        .prop_map(|(rec, perm, other)| RecPermG { rec, perm, other })
        .boxed()
}

/// The ids of a document in the format they are not in
fn other_ids(md: &cm::Metadata) -> BTreeMap<String, String> {
    md.packages
        .iter()
        .map(|p| {
            let src = match &p.source {
                Some(s) => s.repr.clone(),
                None => format!("path+file://{}", p.manifest_path.parent().unwrap()),
            };
            if !p.id.repr.contains(' ') {
                return (p.id.repr.clone(), format!("{} {} ({src})", p.name, p.version));
            }
            let url = src.split('#').next().unwrap();
            let (path, query) = url.split_once('?').map_or((url, None), |(u, q)| (u, Some(q)));
            let url = match query {
                Some(q) => format!("{path}?{}", q.replace('%', "%25").replace(' ', "%20").replace('/', "%2F").replace('+', "%2B")),
                None => path.to_owned(),
            };
            let registry = src.starts_with("registry+") || src.starts_with("sparse+");
            let own = !registry && path.rsplit('/').next() == Some(&p.name);
            let stable = if own { format!("{url}#{}", p.version) } else { format!("{url}#{}@{}", p.name, p.version) };
            (p.id.repr.clone(), stable)
        })
        .collect()
}

fn c13_recorded(g: &RecPermG, cx: &mut Cx) -> R {
    let (md, conf) = g.rec.load();
    // the ids in both formats
    let mut to = other_ids(&md);
    if !g.other {
        to.iter_mut().for_each(|(id, o)| *o = id.clone());
    }
    let re = |id: &mut cm::PackageId| id.repr = to[&id.repr].clone();
    let mut md2 = md.clone();
    let mut at = 0;
    let perm = &g.perm;
    for p in &mut md2.packages {
        re(&mut p.id);
        shuffle(perm, &mut at, &mut p.dependencies);
        shuffle(perm, &mut at, &mut p.targets);
    }
    shuffle(perm, &mut at, &mut md2.packages);
    md2.workspace_members.iter_mut().for_each(re);
    shuffle(perm, &mut at, &mut md2.workspace_members);
    let resolve = md2.resolve.as_mut().unwrap();
    resolve.root.iter_mut().for_each(re);
    for n in &mut resolve.nodes {
        re(&mut n.id);
        n.dependencies.iter_mut().for_each(re);
        for d in &mut n.deps {
            re(&mut d.pkg);
            shuffle(perm, &mut at, &mut d.dep_kinds);
        }
        shuffle(perm, &mut at, &mut n.deps);
        shuffle(perm, &mut at, &mut n.features);
    }
    shuffle(perm, &mut at, &mut resolve.nodes);
    let n1: BTreeMap<String, String> =
        md.packages.iter().enumerate().map(|(i, p)| (p.id.repr.clone(), format!("{i}: {} {}", p.name, p.version))).collect();
    let n2 = n1.iter().map(|(id, n)| (to[id].clone(), n.clone())).collect();
    let ids: Vec<_> = n1.keys().cloned().collect();
    let Some((a, b, f)) = same_graph(&conf, (md, &n1), (md2, &n2))? else { return Ok(()) };
    for id in &ids {
        let (x, y) = (kid(id), kid(&to[id]));
        let all = [a.nid_for_kid(&x), a.nid_for_kid(&y), b.nid_for_kid(&x), b.nid_for_kid(&y)];
        if all.iter().any(|n| *n != all[0]) {
            return Err(format!("looking up {x} and {y} in the two graphs gives {all:?}"));
        }
    }
    cx.label(if g.other { "other format" } else { "same format" });
    cx.nontrivial_if(f.0.len() >= 3 && !f.3.is_empty());
    cx.sample(|| json!({"crates": f.0, "edges": f.3.len(), "ids": to.iter().next()}));
    Ok(())
}

fn c13(g: &PermG, cx: &mut Cx) -> R {
    let (w, conf) = g.wc.decode();
    let mut w2 = w.clone();
    w2.perm = g.perm.clone();
    let other = !w.opaque;
    let (md1, mut md2) = (w.metadata(), w2.metadata_as(other));
    // what the packages list of themselves
    let mut at = 0;
    for p in &mut md2.packages {
        shuffle(&g.perm, &mut at, &mut p.dependencies);
        shuffle(&g.perm, &mut at, &mut p.targets);
    }
    if g.rewrite {
        // the document as text
        let text = serde_json::to_string(&md2).map_err(|e| format!("harness: {e}"))?;
        md2 = serde_json::from_str(&text).map_err(|e| format!("the serialized document is refused: {e}"))?;
    }
    let names = |opaque: bool| -> BTreeMap<String, String> {
        w.pkgs.iter().enumerate().map(|(i, p)| (p.id(opaque), format!("{i}: {} {}", p.name, p.version))).collect()
    };
    let (n1, n2) = (names(w.opaque), names(other));
    let Some((a, b, fa)) = same_graph(&conf, (md1, &n1), (md2, &n2))? else { return Ok(()) };
    // an id of either format finds the node in both
    for p in &w.pkgs {
        let (x, y) = (kid(&p.id(w.opaque)), kid(&p.id(other)));
        let all = [a.nid_for_kid(&x), a.nid_for_kid(&y), b.nid_for_kid(&x), b.nid_for_kid(&y)];
        if all.iter().any(|n| *n != all[0]) {
            return Err(format!("looking up {x} and {y} in the two graphs gives {all:?}"));
        }
    }
    cx.label_if(!g.perm.is_empty() || !w.perm.is_empty(), "shuffled");
    cx.label_if(w.pkgs.iter().any(|p| matches!(p.src, crate::world::Src::Git { .. })), "git");
    cx.nontrivial_if(fa.0.len() >= 3 && !fa.3.is_empty());
    cx.sample(|| json!({"one": n1.keys().collect::<Vec<_>>(), "two": n2.keys().collect::<Vec<_>>(), "crates": fa.0, "edges": fa.3.len()}));
    Ok(())
}

// ---- C20

static REQS: &[&str] = &["*", "^1", "=1.0.0", ">=0.2, <2", "~0.1", "^0.2.4", "<1.0.0", "=3.0.0-alpha.2", ">1.0.0", "^10"];

fn c20(g: &WC, cx: &mut Cx) -> R {
    let (w, conf) = g.decode();
    lookups(&w, &conf, &[], cx)
}

/// Many versions of few names
#[derive(Clone, Debug, Serialize, Deserialize)]
struct VersionsG {
    pkgs: Vec<(u8, u8, String)>,
    reqs: Vec<String>,
    opaque: bool,
    missing: u8,
}

fn versions_g() -> BoxedStrategy<VersionsG> {
    let n = prop_oneof![3 => 0u64..3, 1 => prop::sample::select(vec![9u64, 10, 11, 100])];
    let pre = || {
        prop_oneof![
            5 => Just(String::new()),
            1 => prop::sample::select(vec!["-alpha", "-alpha.2", "-alpha.10", "-rc.1", "-0"]).prop_map(str::to_owned),
        ]
    };
    let build = prop_oneof![6 => Just(""), 1 => Just("+b.1")];
    let version = (n.clone(), n.clone(), n.clone(), pre(), build).prop_map(|(a, b, c, p, m)| format!("{a}.{b}.{c}{p}{m}"));
    let one = || {
        let op = prop::sample::select(vec!["", "^", "~", "=", ">", ">=", "<", "<="]);
        let at = prop_oneof![
            1 => n.clone().prop_map(|a| a.to_string()),
            1 => (n.clone(), n.clone()).prop_map(|(a, b)| format!("{a}.{b}")),
            3 => (n.clone(), n.clone(), n.clone(), pre()).prop_map(|(a, b, c, p)| format!("{a}.{b}.{c}{p}")),
        ];
        (op, at).prop_map(|(o, a)| format!("{o}{a}"))
    };
    let req = prop_oneof![
        1 => Just("*".to_owned()),
        4 => one(),
        2 => (one(), one()).prop_map(|(a, b)| format!("{a}, {b}")),
    ];
    let pkg = (any::<u8>(), any::<u8>(), version);
    (vec(pkg, 1..14), vec(req, 1..6), any::<bool>(), any::<u8>())
        .prop_map(|(pkgs, reqs, opaque, missing)| VersionsG { pkgs, reqs, opaque, missing })
        .boxed()
}

fn c20_versions(g: &VersionsG, cx: &mut Cx) -> R {
    use crate::world::{Decl, Kind, Pkg, Src};
    let pkg = |name: &str, version: &str, src: Src, member: bool| Pkg {
        name: name.to_owned(),
        version: version.to_owned(),
        src,
        patched: false,
        member,
        lib_name: crate::world::norm(name),
        lib_kinds: vec![cm::TargetKind::Lib],
        lib_style: 0,
        features: BTreeMap::new(),
        decls: vec![],
        sel: 0,
    };
    let ws = crate::world::WS_ROOT;
    let mut pkgs = vec![pkg("foo", "0.0.1", Src::Path { dir: format!("{ws}/foo") }, true)];
    let mut seen = BTreeSet::new();
    for (i, (n, s, v)) in g.pkgs.iter().enumerate() {
        let name = ["foo", "foo", "foo", "foo-bar", "foo2", "fo", "Foo"][*n as usize % 7];
        let src = match s % 6 {
            5 => Src::Git { url: format!("https://git.example.com/org/r{}", s / 6 % 3), query: None, commit: "00ff00aa".repeat(5) },
            4 => Src::Path { dir: format!("/kv-none/other/d{i}") },
            k => Src::Registry((k as usize + *s as usize / 6) % 5),
        };
        let p = pkg(name, v, src, false);
        if seen.insert(p.id(true)) {
            pkgs.push(p);
        }
    }
    // the last few are not in the graph
    let n = pkgs.len();
    let linked = n - (g.missing as usize % 3).min(n - 1);
    pkgs[0].decls = (1..n)
        .map(|i| Decl {
            toml: format!("d{i}"),
            rename: Some(format!("d{i}")),
            kind: if i < linked { Kind::Normal } else { Kind::Build },
            optional: false,
            nodef: false,
            features: vec![],
            target: None,
            req: format!("={}", pkgs[i].version.split('+').next().unwrap()),
            to: i,
        })
        .collect();
    let mut w = World {
        resolved: vec![None; n],
        active: vec![BTreeSet::new(); n],
        pkgs,
        root: None,
        opaque: g.opaque,
        perm: vec![],
    };
    w.resolve_again();
    let conf = crate::model::Conf { ignore: vec![(Kind::Build, crate::model::ScopeM::All)], ..Default::default() };
    let reqs: Vec<&str> = g.reqs.iter().map(String::as_str).collect();
    lookups(&w, &conf, &reqs, cx)?;
    cx.nontrivial_if(n >= 5);
    Ok(())
}

/// Something to look up
struct Thing {
    id: String,
    other: String,
    name: String,
    version: String,
    features: BTreeSet<String>,
    member: bool,
}

fn c20_recorded(g: &recorded::RecG, cx: &mut Cx) -> R {
    let (md, conf) = g.load();
    let mut to = other_ids(&md);
    let things = md
        .packages
        .iter()
        .map(|p| Thing {
            id: p.id.repr.clone(),
            other: to.remove(&p.id.repr).unwrap(),
            name: p.name.clone(),
            version: p.version.to_string(),
            features: p.features.keys().cloned().collect(),
            member: md.workspace_members.contains(&p.id),
        })
        .collect::<Vec<_>>();
    lookups_of(md, &things, &conf, &[], cx)
}

fn lookups(w: &World, conf: &crate::model::Conf, reqs: &[&str], cx: &mut Cx) -> R {
    let things = w
        .pkgs
        .iter()
        .map(|p| Thing {
            id: p.id(w.opaque),
            other: p.id(!w.opaque),
            name: p.name.clone(),
            version: p.version.clone(),
            features: p.features.keys().cloned().collect(),
            member: p.member,
        })
        .collect::<Vec<_>>();
    lookups_of(w.metadata(), &things, conf, reqs, cx)
}

/// What a crate calls itself need not be what its package is called
struct OwnNode {
    id: String,
    name: String,
    version: semver::Version,
}

impl From<cm::Package> for OwnNode {
    fn from(p: cm::Package) -> Self {
        Self {
            // the node is found by the data it has itself
            name: p.name.chars().rev().collect(),
            version: semver::Version::new(p.version.minor, p.version.patch, p.name.len() as u64),
            id: p.id.repr,
        }
    }
}

impl krates::KrateDetails for OwnNode {
    fn name(&self) -> &str {
        &self.name
    }
    fn version(&self) -> &semver::Version {
        &self.version
    }
}

/// Look-ups by name in a graph of nodes of another type than `Package`
fn by_own_node(md: cm::Metadata, things: &[Thing], conf: &crate::model::Conf, c: &core::Case, cx: &mut Cx) -> R {
    let k: krates::Krates<OwnNode> =
        guard(|| conf.builder().build_with_metadata(md, krates::NoneFilter)).map_err(|m| format!("building panicked: {m}"))?.map_err(|e| e.to_string())?;
    let ids: Vec<&str> = k.krates().map(|n| n.id.as_str()).collect();
    if ids != c.obs.crates {
        return Err(format!("with nodes of its own type the crates are {ids:?} instead of {:?}", c.obs.crates));
    }
    let mut asked = BTreeSet::new();
    for p in things {
        let turned: String = p.name.chars().rev().collect();
        for name in [p.name.as_str(), turned.as_str()] {
            if !asked.insert(name.to_owned()) {
                continue;
            }
            let of_name: Vec<usize> = (0..ids.len()).filter(|i| k[*i].name == name).collect();
            let got: Vec<usize> = k.krates_by_name(name).map(|m| m.node_id.index()).collect();
            if got != of_name {
                return Err(format!("with nodes of its own type krates_by_name({name}) gives {got:?} instead of {of_name:?}"));
            }
            for m in k.krates_by_name(name) {
                if m.kid != &kid(&m.krate.id) || m.krate.id != ids[m.node_id.index()] {
                    return Err(format!("a match has the node {:?}, the id {} and the data of {}", m.node_id, m.kid, m.krate.id));
                }
            }
            for r in ["*", "^1", ">=0.1", "=0.0.5"].into_iter().chain(of_name.first().map(|_| "<2")) {
                let req: semver::VersionReq = r.parse().unwrap();
                let want: Vec<usize> = of_name.iter().copied().filter(|i| req.matches(&k[*i].version)).collect();
                let got: Vec<usize> = k.search_matches(name, req).map(|m| m.node_id.index()).collect();
                if got != want {
                    return Err(format!("with nodes of its own type search_matches({name}, {r}) gives {got:?} instead of {want:?}"));
                }
            }
            cx.label_if(!of_name.is_empty() && !things.iter().any(|q| q.name == name), "found by the name of the node");
        }
    }
    Ok(())
}

fn lookups_of(md: cm::Metadata, things: &[Thing], conf: &crate::model::Conf, reqs: &[&str], cx: &mut Cx) -> R {
    let md2 = md.clone();
    let Some(c) = core::prepare(md, conf, cx)? else { return Ok(()) };
    c.crates()?;
    c.features()?;
    let k = &*c.k;
    let here: BTreeMap<&str, usize> = c.obs.crates.iter().enumerate().map(|(i, id)| (id.as_str(), i)).collect();
    let mut absent = 0;
    let mut feature_hits = 0;
    for (pi, p) in things.iter().enumerate() {
        let id = p.id.clone();
        let at = here.get(id.as_str()).copied();
        absent += usize::from(at.is_none());
        for kid in [kid(&id), kid(&p.other)] {
            let want = at.map(nid);
            let got = k.nid_for_kid(&kid);
            if got != want {
                return Err(format!("nid_for_kid({kid}) is {got:?} instead of {want:?}"));
            }
            let node = |n: Option<&krates::Node<cm::Package>>| match n {
                None => None,
                Some(krates::Node::Krate { krate, .. }) => Some(krate.id.repr.clone()),
                Some(krates::Node::Feature { name, .. }) => Some(format!("feature {name}")),
            };
            let want_id = at.map(|_| id.clone());
            if node(k.node_for_kid(&kid)) != want_id {
                return Err(format!("node_for_kid({kid}) is {:?}", node(k.node_for_kid(&kid))));
            }
            let got = k.get_node(&kid, None).map(|(n, x)| (n, node(Some(x))));
            if got != at.map(|i| (nid(i), want_id.clone())) {
                return Err(format!("get_node({kid}, None) is {got:?}"));
            }
            let enabled = at.map(|_| &c.obs.features[&id]);
            if k.get_enabled_features(&kid) != enabled {
                return Err(format!("get_enabled_features({kid}) is {:?} instead of {enabled:?}", k.get_enabled_features(&kid)));
            }
            for f in p.features.iter().map(String::as_str).chain(["kv-none", "", "default", &p.name]) {
                let want = enabled.is_some_and(|e| e.contains(f)) && p.features.contains(f);
                match k.get_node(&kid, Some(f)) {
                    None if !want => {}
                    Some((n, krates::Node::Feature { krate_index, name })) if want => {
                        feature_hits += 1;
                        let at_n = matches!(&k.graph()[n], krates::Node::Feature { name, .. } if name == f);
                        if name != f || Some(*krate_index) != at.map(nid) || !at_n || n.index() < k.len() {
                            return Err(format!("get_node({kid}, {f:?}) is the node {n:?} {name} of {krate_index:?}"));
                        }
                    }
                    Some((_, krates::Node::Krate { krate, .. })) => return Err(format!("get_node({kid}, {f:?}) is the crate {}", krate.id)),
                    _ => return Err(format!("get_node({kid}, {f:?}) should be {} (enabled {enabled:?})", if want { "a node" } else { "nothing" })),
                }
            }
        }
        if let Some(i) = at {
            if k[i].id.repr != id || k[nid(i)].id.repr != id {
                return Err(format!("the crate at {i} is {} and {} instead of {id}", k[i].id, k[nid(i)].id));
            }
        }
        // by name and requirement
        let mut of_name: Vec<(usize, &Thing)> =
            things.iter().filter(|q| q.name == p.name).filter_map(|q| here.get(q.id.as_str()).map(|i| (*i, q))).collect();
        of_name.sort_by_key(|x| x.0);
        let shown = |m: krates::KrateMatch<'_, cm::Package>| -> Result<usize, String> {
            if *m.kid != kid(&m.krate.id.repr) || m.krate.id.repr != c.obs.crates[m.node_id.index()] {
                return Err(format!("a match has the node {:?}, the id {} and the data of {}", m.node_id, m.kid, m.krate.id));
            }
            Ok(m.node_id.index())
        };
        let got: Vec<usize> = k.krates_by_name(p.name.as_str()).map(shown).collect::<Result<_, _>>()?;
        if got != of_name.iter().map(|x| x.0).collect::<Vec<_>>() {
            return Err(format!("krates_by_name({}) gives {got:?} instead of {:?}", p.name, of_name.iter().map(|x| x.0).collect::<Vec<_>>()));
        }
        cx.label_if(of_name.len() > 1, "several of a name");
        let exact = format!("={}", p.version.split('+').next().unwrap());
        let mut rs = vec![REQS[pi % REQS.len()], REQS[(pi * 3 + p.features.len()) % REQS.len()], &exact];
        if of_name.len() > 2 {
            rs.extend(REQS);
        }
        rs.extend(reqs);
        for r in rs {
            let req: semver::VersionReq = r.parse().unwrap();
            let got: Vec<usize> = k.search_matches(p.name.as_str(), req.clone()).map(shown).collect::<Result<_, _>>()?;
            let want: Vec<usize> = of_name.iter().filter(|x| req.matches(&x.1.version.parse().unwrap())).map(|x| x.0).collect();
            if got != want {
                return Err(format!("search_matches({}, {r}) gives {got:?} instead of {want:?}", p.name));
            }
            cx.label_if(!want.is_empty() && want.len() < of_name.len(), "requirement selects some");
            cx.label_if(
                want.len() >= 2 && of_name.iter().any(|x| x.0 > want[0] && x.0 < want[want.len() - 1] && !want.contains(&x.0)),
                "requirement leaves out one in the middle",
            );
        }
    }
    if things.len() <= 12 {
        by_own_node(md2, things, conf, &c, cx)?;
    }
    for n in ["kv-none", "", "Alpha", "foo_bar"] {
        if k.krates_by_name(n).next().is_some() || k.search_matches(n, semver::VersionReq::STAR).next().is_some() {
            return Err(format!("there are crates of the name {n:?}"));
        }
    }
    // members that are in the graph, in order
    let mut members: Vec<usize> = things.iter().filter(|p| p.member).filter_map(|p| here.get(p.id.as_str()).copied()).collect();
    members.sort();
    let got: Vec<usize> = k
        .workspace_members()
        .map(|n| match n {
            krates::Node::Krate { krate, .. } => here[krate.id.repr.as_str()],
            krates::Node::Feature { .. } => usize::MAX,
        })
        .collect();
    if got != members {
        return Err(format!("workspace_members() gives {got:?} instead of {members:?}"));
    }
    cx.label_if(absent > 0, "absent crates looked up");
    cx.nontrivial_if(c.obs.crates.len() >= 3 && feature_hits > 0);
    cx.sample(|| json!({"crates": c.obs.crates, "absent": absent, "feature nodes found": feature_hits / 2, "members": members}));
    Ok(())
}

// ---- C21

/// `direct_dependencies` goes on through the features of a dependency
const KF_DIRECT: &str = "direct-dependencies-through-feature-nodes";

fn c21<I: Input>(g: &I, cx: &mut Cx) -> R {
    let (md, conf) = g.load();
    let Some(c) = core::prepare(md, &conf, cx)? else { return Ok(()) };
    c.links()?;
    let k = &*c.k;
    let gr = k.graph();
    let mut many = 0;
    for (i, id) in c.obs.crates.iter().enumerate() {
        let a = c.model.index[id];
        // the crates it is linked with
        let want: BTreeSet<&str> = c.exp.edges.iter().filter(|e| e.from == a).map(|e| c.model.pkgs[e.to].id.as_str()).collect();
        let mut got: BTreeSet<&str> = BTreeSet::new();
        for d in k.direct_dependencies(nid(i)) {
            let to = d.krate.id.repr.as_str();
            if !got.insert(to) {
                return Err(format!("{to} is twice among the direct dependencies of {id}"));
            }
            if d.node_id.index() >= c.obs.crates.len() || c.obs.crates[d.node_id.index()] != to {
                return Err(format!("the direct dependency {to} of {id} has the node {:?}", d.node_id));
            }
            if gr.edge_endpoints(d.edge_id).map(|e| e.1) != Some(d.node_id) {
                return Err(format!("the edge of the direct dependency {to} of {id} does not lead to it"));
            }
        }
        if got != want {
            let missing: Vec<_> = want.difference(&got).collect();
            if !missing.is_empty() {
                return Err(format!("direct_dependencies({id}) lacks {missing:?}"));
            }
            // everything that feature nodes lead to
            let mut reach: BTreeSet<&str> = BTreeSet::new();
            let mut seen = BTreeSet::new();
            let mut todo = vec![nid(i)];
            while let Some(n) = todo.pop() {
                for t in gr.neighbors(n) {
                    match &gr[t] {
                        krates::Node::Krate { krate, .. } => {
                            reach.insert(krate.id.repr.as_str());
                        }
                        krates::Node::Feature { .. } => {
                            if seen.insert(t) {
                                todo.push(t);
                            }
                        }
                    }
                }
            }
            let extra: Vec<_> = got.difference(&want).collect();
            if got != reach {
                return Err(format!("direct_dependencies({id}) has {extra:?} as well, it is linked with {want:?} only"));
            }
            cx.label("reports more than the direct dependencies");
            cx.finding(KF_DIRECT, || format!("direct_dependencies({id}) has {extra:?} as well"))?;
        }
        // and back
        let want: BTreeSet<&str> = c.exp.edges.iter().filter(|e| e.to == a).map(|e| c.model.pkgs[e.from].id.as_str()).collect();
        let mut got: BTreeSet<&str> = BTreeSet::new();
        for d in k.direct_dependents(nid(i)) {
            let from = d.krate.id.repr.as_str();
            if !got.insert(from) {
                return Err(format!("{from} is twice among the direct dependents of {id}"));
            }
            if d.node_id.index() >= c.obs.crates.len() || c.obs.crates[d.node_id.index()] != from {
                return Err(format!("the direct dependent {from} of {id} has the node {:?}", d.node_id));
            }
            let Some((s, t)) = gr.edge_endpoints(d.edge_id) else {
                return Err(format!("the edge of the direct dependent {from} of {id} does not exist"));
            };
            let leads = match &gr[t] {
                krates::Node::Krate { .. } => t == nid(i),
                krates::Node::Feature { krate_index, .. } => *krate_index == nid(i),
            };
            if s != d.node_id || !leads {
                return Err(format!("the edge of the direct dependent {from} of {id} does not come from it or leads elsewhere"));
            }
        }
        if got != want {
            return Err(format!("direct_dependents({id}) are {got:?} instead of {want:?}"));
        }
        many += usize::from(want.len() >= 2);
    }
    cx.label_if(many > 0, "several dependents");
    cx.label_if(c.exp.edges.iter().any(|e| e.from == e.to), "depends on itself");
    cx.nontrivial_if(c.exp.edges.len() >= 3 && many > 0);
    cx.sample(|| super::build::sample(&conf, &c));
    Ok(())
}

// ---- C22

fn c22<I: Input>(g: &I, cx: &mut Cx) -> R {
    let (md, conf) = g.load();
    let Some(c) = core::prepare(md, &conf, cx)? else { return Ok(()) };
    c.links()?;
    let k = &*c.k;
    let (mut some, mut none) = (0, 0);
    for (i, id) in c.obs.crates.iter().enumerate() {
        let a = c.model.index[id];
        let n = c.model.pkgs[a].decls.len();
        for d in 0..n + 3 {
            let want = c.exp.edges.iter().find(|e| e.from == a && e.decl == d).map(|e| c.model.pkgs[e.to].id.as_str());
            let got = k.resolved_dependency(nid(i), d);
            if got.map(|p| p.id.repr.as_str()) != want {
                return Err(format!(
                    "dependency {d} of {id} ({:?}) is resolved to {:?} instead of {want:?}",
                    k[i].dependencies.get(d),
                    got.map(|p| &p.id.repr)
                ));
            }
            if let Some(p) = got {
                some += 1;
                if p.name != k[i].dependencies[d].name {
                    return Err(format!("dependency {d} of {id} is for another package than {}", p.id));
                }
            } else if d < n {
                none += 1;
            }
        }
    }
    for f in k.len()..k.graph().node_count() + 2 {
        if let Some(p) = k.resolved_dependency(nid(f), 0) {
            return Err(format!("the node {f}, which is no crate, has the dependency {}", p.id));
        }
    }
    cx.label_if(none > 0, "pruned or inactive declarations");
    cx.nontrivial_if(some >= 2 && none >= 1);
    cx.sample(|| json!({"resolved": some, "not resolved": none, "crates": c.obs.crates}));
    Ok(())
}

// ---- C23

const KF_FILTERED: &str = "krates-filtered-keeps-what-features-enabled";

fn c23<I: Input>(g: &I, cx: &mut Cx) -> R {
    let (md, conf) = g.load();
    let members: Vec<String> = md.workspace_members.iter().map(|m| m.repr.clone()).collect();
    let Some(c) = core::prepare(md.clone(), &conf, cx)? else { return Ok(()) };
    c.links()?;
    let k = &*c.k;
    let mut removed = 0;
    for kind in Kind::ALL {
        let list = k.krates_filtered(kind.krates());
        let ids: Vec<&str> = list.iter().map(|p| p.id.repr.as_str()).collect();
        let order: Vec<usize> = ids
            .iter()
            .map(|i| c.obs.crates.iter().position(|x| x == i).ok_or_else(|| format!("krates_filtered gives {i}, which is not in the graph")))
            .collect::<Result<_, _>>()?;
        if order.windows(2).any(|x| x[0] >= x[1]) {
            return Err(format!("krates_filtered({kind:?}) is not in order, or has something twice: {ids:?}"));
        }
        let got: BTreeSet<String> = ids.iter().map(|s| (*s).to_owned()).collect();
        // as if the kind had been ignored from the start
        let mut ignoring = conf.clone();
        ignoring.ignore.push((kind, crate::model::ScopeM::All));
        let want = graph(md.clone(), &ignoring)?.map(|(_, o)| o.crate_set()).unwrap_or_default();
        removed += c.obs.crates.len() - got.len();
        if got == want {
            continue;
        }
        // what the other links of this graph lead to from the members in it
        let mut reach: BTreeSet<String> = members.iter().filter(|i| c.obs.features.contains_key(*i)).cloned().collect();
        let mut todo: VecDeque<Ref> = reach.iter().map(|i| Ref::Crate(i.clone())).collect();
        let mut seen: BTreeSet<Ref> = todo.iter().cloned().collect();
        while let Some(at) = todo.pop_front() {
            for (s, d, e) in &c.obs.edges {
                let ignored = matches!(e, EdgeO::Dep(x, _) | EdgeO::DepFeature(x, _) if *x == kind);
                if *s == at && !ignored && seen.insert(d.clone()) {
                    if let Ref::Crate(i) = d {
                        reach.insert(i.clone());
                    }
                    todo.push_back(d.clone());
                }
            }
        }
        let explicable = c.obs.edges.iter().any(|e| e.2 == EdgeO::Feature) || members.iter().any(|m| !c.exp.roots.contains(&c.model.index.get(m).copied().unwrap_or(usize::MAX)));
        if got != reach || !explicable {
            return Err(format!(
                "krates_filtered({kind:?}) lacks {:?} and has {:?} as well, compared with a graph that ignores the kind",
                want.difference(&got).collect::<Vec<_>>(),
                got.difference(&want).collect::<Vec<_>>()
            ));
        }
        cx.label("keeps what features had enabled");
        cx.finding(KF_FILTERED, || format!("krates_filtered({kind:?}) has {:?} as well", got.difference(&want).collect::<Vec<_>>()))?;
    }
    cx.label_if(removed > 0, "something removed");
    cx.nontrivial_if(removed > 0 && c.obs.crates.len() >= 3);
    cx.sample(|| super::build::sample(&conf, &c));
    Ok(())
}

/// Worlds with all kinds of links and few features, where both readings agree
fn simple_kinds() -> BoxedStrategy<WC> {
    let w = prop_oneof![world::world_sized(3..=8, 5, 0), world::world_sized(3..=6, 4, 1)]
        .prop_map(|mut w| {
            w.root = 0;
            for p in &mut w.pkgs {
                for d in &mut p.deps {
                    d.opt = false;
                    if d.req % 3 == 0 {
                        d.kind = 5 + d.req / 3 % 3;
                    }
                }
            }
            w
        })
        .boxed();
    with_conf(w, prop_oneof![2 => Just(ConfG::default()).boxed(), 1 => conf::conf_g()].boxed())
}

// ---- C25

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct HurtG<I> {
    wc: I,
    /// features lost from the packages of the document
    lose: Vec<u8>,
    how: u8,
}

fn hurt<I: Input + std::fmt::Debug + 'static>(i: BoxedStrategy<I>) -> BoxedStrategy<HurtG<I>> {
    (i, vec(any::<u8>(), 1..10), any::<u8>()).prop_map(|(wc, lose, how)| HurtG { wc, lose, how }).boxed()
}

fn hurt_g() -> BoxedStrategy<HurtG<WC>> {
    hurt(prop_oneof![2 => mixed(), 2 => dense(), 1 => large()].boxed())
}

fn outcome(b: krates::Builder, md: cm::Metadata) -> Result<Result<K, krates::Error>, String> {
    guard(|| b.build_with_metadata::<cm::Package, krates::Edge, _>(md, krates::NoneFilter))
}

fn c25<I: Input>(g: &HurtG<I>, cx: &mut Cx) -> R {
    let (mut md, mut conf) = g.wc.load();
    let windows = g.how % 3 == 0;
    if windows {
        // the paths of members would have to exist
        conf.include.clear();
        md = on_windows(&md)?;
    }
    // the same twice
    let one = outcome(conf.builder(), md.clone())?;
    let two = outcome(conf.builder(), md.clone())?;
    let whole = match (one, two) {
        (Ok(a), Ok(b)) => {
            let (x, y) = (dump(&a), dump(&b));
            if x != y {
                return Err(format!("two builds of the same differ:\n{x}\n---\n{y}"));
            }
            Some(a)
        }
        (Err(krates::Error::NoRootKrates), Err(krates::Error::NoRootKrates)) => None,
        (a, b) => return Err(format!("unexpected outcome: {:?}, {:?}", a.err(), b.err())),
    };
    // no resolution graph
    let mut none = md.clone();
    none.resolve = None;
    match outcome(conf.builder(), none)? {
        Err(krates::Error::NoResolveGraph) => {}
        r => return Err(format!("without a resolution the outcome is {:?}", r.err())),
    }
    // nothing at all
    let mut empty = md.clone();
    empty.packages.clear();
    empty.workspace_members.clear();
    let r = empty.resolve.as_mut().unwrap();
    r.nodes.clear();
    r.root = None;
    match outcome(conf.builder(), empty)? {
        Err(krates::Error::NoRootKrates) => {}
        r => return Err(format!("an empty workspace makes {:?}", r.err())),
    }
    // features that cargo resolved but the manifests do not tell of, as in old
    // registry entries
    let mut lossy = md.clone();
    let mut at = 0;
    let mut lost = 0;
    for p in &mut lossy.packages {
        p.features.retain(|_, _| {
            at += 1;
            let keep = g.lose[at % g.lose.len()].wrapping_mul(((at / g.lose.len()) as u8).wrapping_mul(2) | 1) % 3 != 0;
            lost += usize::from(!keep);
            keep
        });
    }
    match outcome(conf.builder(), lossy)? {
        Ok(k) => {
            let Some(whole) = &whole else {
                return Err("fewer features made a graph where there was no root left".to_owned());
            };
            let (a, b) = (look(&k)?, look(whole)?);
            if !a.crate_set().is_subset(&b.crate_set()) {
                return Err(format!("losing features added crates: {:?}", a.crate_set().difference(&b.crate_set()).collect::<Vec<_>>()));
            }
            for (id, f) in &a.features {
                if !f.is_subset(&b.features[id]) {
                    return Err(format!("losing features enabled {:?} of {id}", f.difference(&b.features[id]).collect::<Vec<_>>()));
                }
            }
            // what can be asked of it
            guard(|| {
                for i in 0..k.len() {
                    let _ = k.direct_dependencies(nid(i)).len() + k.direct_dependents(nid(i)).len() + k.get_deps(nid(i)).count();
                }
                for kind in Kind::ALL {
                    let _ = k.krates_filtered(kind.krates());
                }
            })?;
        }
        Err(krates::Error::NoRootKrates) if whole.is_none() => {}
        r => return Err(format!("losing features makes {:?}", r.err())),
    }
    cx.label_if(lost > 0, "features lost");
    cx.label_if(windows, "from Windows");
    cx.label_if(whole.is_none(), "no root left");
    cx.nontrivial_if(lost > 0 && whole.as_ref().is_some_and(|k| k.len() >= 3));
    cx.sample(|| json!({"packages": md.packages.len(), "features lost": lost, "crates": whole.as_ref().map(|k| k.len())}));
    Ok(())
}

/// Long chains and wide fans
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct DeepG {
    n: u16,
    shape: u8,
    feats: u8,
}

fn deep_g() -> BoxedStrategy<DeepG> {
    (2u16..700, any::<u8>(), any::<u8>()).prop_map(|(n, shape, feats)| DeepG { n, shape, feats }).boxed()
}

fn c25_deep(g: &DeepG, cx: &mut Cx) -> R {
    let n = g.n as usize;
    let id = |i: usize| if i == 0 { "path+file:///kv-none/ws#p0@1.0.0".to_owned() } else { format!("registry+https://github.com/rust-lang/crates.io-index#p{i}@1.0.0") };
    let to = |i: usize| -> Vec<usize> {
        let mut v = match g.shape % 4 {
            0 => vec![i + 1],
            1 if i == 0 => (1..n).collect(),
            1 => vec![],
            2 => vec![i * 2 + 1, i * 2 + 2],
            _ => vec![i + 1, i + 2, i + 3],
        };
        v.retain(|j| *j < n);
        v
    };
    let feature = g.feats % 2 == 1;
    let packages: Vec<_> = (0..n)
        .map(|i| {
            let deps: Vec<_> = to(i)
                .into_iter()
                .map(|j| json!({"name": format!("p{j}"), "source": "registry+https://github.com/rust-lang/crates.io-index", "req": "^1.0.0", "kind": null, "rename": null, "optional": feature, "uses_default_features": true, "features": [], "target": null, "registry": null}))
                .collect();
            let mut features = serde_json::Map::new();
            if feature {
                features.insert("default".to_owned(), json!(["all"]));
                features.insert("all".to_owned(), to(i).into_iter().map(|j| json!(format!("p{j}/all"))).collect());
                for j in to(i) {
                    features.insert(format!("p{j}"), json!([format!("dep:p{j}")]));
                }
            }
            json!({"name": format!("p{i}"), "version": "1.0.0", "id": id(i), "license": null, "license_file": null, "description": null,
                "source": if i == 0 { serde_json::Value::Null } else { json!("registry+https://github.com/rust-lang/crates.io-index") },
                "dependencies": deps, "targets": [], "features": features, "manifest_path": format!("/kv-none/{i}/Cargo.toml"),
                "metadata": null, "publish": null, "authors": [], "categories": [], "keywords": [], "readme": null, "repository": null,
                "homepage": null, "documentation": null, "edition": "2021", "links": null, "default_run": null, "rust_version": null})
        })
        .collect();
    let nodes: Vec<_> = (0..n)
        .map(|i| {
            let deps: Vec<_> = to(i).into_iter().map(|j| json!({"name": format!("p{j}"), "pkg": id(j), "dep_kinds": [{"kind": null, "target": null}]})).collect();
            let feats: Vec<String> = if feature { ["all".to_owned(), "default".to_owned()].into_iter().chain(to(i).into_iter().map(|j| format!("p{j}"))).collect() } else { vec![] };
            json!({"id": id(i), "dependencies": to(i).into_iter().map(id).collect::<Vec<_>>(), "deps": deps, "features": feats})
        })
        .collect();
    let md = json!({"packages": packages, "workspace_members": [id(0)], "workspace_default_members": [id(0)], "resolve": {"nodes": nodes, "root": id(0)},
        "target_directory": "/kv-none/target", "version": 1, "workspace_root": "/kv-none/0", "metadata": null});
    let md: cm::Metadata = serde_json::from_value(md).map_err(|e| format!("harness: {e}"))?;
    let k = outcome(krates::Builder::new(), md)?.map_err(|e| format!("building failed: {e}"))?;
    if k.len() != n {
        return Err(format!("{n} crates are reachable, the graph has {}", k.len()));
    }
    let all = k.krates_filtered(krates::DepKind::Dev).len();
    if all != n {
        return Err(format!("{all} of the {n} crates are reached without dev dependencies"));
    }
    cx.label(["chain", "fan", "tree", "braid"][g.shape as usize % 4]);
    cx.nontrivial_if(n > 50);
    cx.sample(|| json!(g));
    Ok(())
}

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C13",
            rule: "Worlds and configurations as for C01; the document with ids of one format, and the one with ids of the other format, all its lists shuffled and possibly written out as text and read again; and the document with the paths of a Windows machine. Crates in order, features, feature nodes, edges, filtered packages and look-ups by either id must correspond. Non-trivial: three crates and a link.",
            assumptions: ASSUME,
            parts: vec![part("formats", 100_000, 6_000_000, perm_g, c13), part("windows", 50_000, 3_000_000, both, c13_windows), part("namesakes", 50_000, 3_000_000, namesakes, c13_windows), part("recorded", 3_000, 150_000, rec_perm, c13_recorded)],
        },
        Check {
            id: "C20",
            rule: "Worlds and configurations as for C01; each package of the document, in the graph or not, is looked up by both formats of its id, by its features, its name, and name with ten kinds of requirements; members and indices are compared as well. Non-trivial: three crates and a feature node found.",
            assumptions: ASSUME,
            parts: vec![part("lookups", 80_000, 5_000_000, both, c20), part("large", 3_000, 200_000, large, c20), part("versions", 20_000, 1_500_000, versions_g, c20_versions), part("recorded", 2_000, 100_000, recorded::recorded, c20_recorded)],
        },
        Check {
            id: "C21",
            rule: "Worlds and configurations as for C01; for each crate of the graph the direct dependencies and dependents are compared with the model's links. Non-trivial: three links and a crate with two dependents.",
            assumptions: ASSUME,
            parts: vec![part("both", 120_000, 8_000_000, both, c21), part("namesakes", 30_000, 2_000_000, namesakes, c21), part("large", 5_000, 300_000, large, c21), part("recorded", 3_000, 150_000, recorded::recorded, c21), part("wide", 6_000, 300_000, recorded::wide, c21)],
        },
        Check {
            id: "C22",
            rule: "Worlds and configurations as for C01; each dependency declaration of each crate in the graph is resolved and compared with the model, also indices past the end and nodes that are no crates. Non-trivial: two declarations resolved, and one that is not.",
            assumptions: ASSUME,
            parts: vec![part("both", 120_000, 8_000_000, both, c22), part("namesakes", 30_000, 2_000_000, namesakes, c22), part("pruned", 60_000, 4_000_000, pruned, c22), part("large", 5_000, 300_000, large, c22), part("recorded", 3_000, 150_000, recorded::recorded, c22), part("wide", 6_000, 300_000, recorded::wide, c22)],
        },
        Check {
            id: "C23",
            rule: "Worlds and configurations as for C01, and ones without features where all members are roots; for each kind the list must be that of the graph built with the kind ignored, in order. Non-trivial: a crate is removed from a graph of three or more.",
            assumptions: ASSUME,
            parts: vec![part("simple", 60_000, 4_000_000, simple_kinds, c23::<WC>), part("both", 60_000, 4_000_000, both, c23::<WC>), part("recorded", 3_000, 150_000, recorded::recorded, c23)],
        },
        Check {
            id: "C25",
            rule: "Worlds, recorded documents and configurations as for C01, a third of the worlds as on a Windows machine, built twice, without resolution, without packages, and with features lost from the packages; chains, fans, trees and braids of up to 700 crates. Only the documented errors may come, never a panic, the same each time, and losing features may only take away. Non-trivial: features are lost from a graph of at least three crates; more than 50 crates.",
            assumptions: ASSUME,
            parts: vec![part("damaged", 80_000, 5_000_000, hurt_g, c25), part("namesakes", 40_000, 2_000_000, || hurt(namesakes()), c25), part("recorded", 2_000, 100_000, || hurt(recorded::recorded()), c25), part("deep", 96, 3_000, deep_g, c25_deep)],
        },
    ]
}
