//! The reference model: which crates, features and links a metadata document
//! and a configuration call for, computed as a least fixed point.

use crate::cfgs::{Filter, Key};
use crate::world::{Kind, norm};
use krates::cm;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum ScopeM {
    Workspace,
    NonWorkspace,
    All,
}

/// A configuration of the builder
#[derive(Clone, Debug, Default)]
pub struct Conf {
    pub targets: Vec<(String, Vec<String>)>,
    pub ignore: Vec<(Kind, ScopeM)>,
    /// package spec texts
    pub exclude: Vec<String>,
    pub workspace: bool,
    pub include: Vec<String>,
}

impl Conf {
    pub fn builder(&self) -> krates::Builder {
        let mut b = krates::Builder::new();
        if !self.targets.is_empty() {
            b.include_targets(self.targets.iter().map(|(t, f)| (t.as_str(), f.clone())));
        }
        for (k, s) in &self.ignore {
            b.ignore_kind(
                k.krates(),
                match s {
                    ScopeM::Workspace => krates::Scope::Workspace,
                    ScopeM::NonWorkspace => krates::Scope::NonWorkspace,
                    ScopeM::All => krates::Scope::All,
                },
            );
        }
        if !self.exclude.is_empty() {
            b.exclude(self.exclude.iter().map(|s| s.parse().expect("harness: bad spec")));
        }
        b.workspace(self.workspace);
        if !self.include.is_empty() {
            b.include_workspace_crates(&self.include);
        }
        b
    }

    pub fn ignored(&self, kind: Kind, member: bool) -> bool {
        self.ignore.iter().any(|(k, s)| {
            *k == kind
                && match s {
                    ScopeM::Workspace => member,
                    ScopeM::NonWorkspace => !member,
                    ScopeM::All => true,
                }
        })
    }
}

/// A package spec as the documentation describes it, matched independently
pub struct SpecM {
    pub name: String,
    pub version: Option<semver::Version>,
    pub url: Option<String>,
}

impl SpecM {
    /// `[url#]name[@version]`, as the generators write them
    pub fn parse(s: &str) -> Self {
        let (url, nv) = match s.split_once('#') {
            Some((u, f)) => (Some(u.to_owned()), f.to_owned()),
            None if s.contains("://") => (Some(s.to_owned()), s.rsplit('/').next().unwrap().to_owned()),
            None => (None, s.to_owned()),
        };
        let (name, version) = match nv.split_once([':', '@']) {
            Some((n, v)) => (n.to_owned(), Some(v.parse().unwrap())),
            None if nv.starts_with(|c: char| c.is_ascii_digit()) => (
                url.as_ref().unwrap().rsplit('/').next().unwrap().to_owned(),
                Some(nv.parse().unwrap()),
            ),
            None => (nv, None),
        };
        Self { name, version, url }
    }

    pub fn matches(&self, p: &MPkg) -> bool {
        if self.name != p.name || self.version.as_ref().is_some_and(|v| *v != p.version) {
            return false;
        }
        match (&self.url, &p.source) {
            (Some(u), Some(s)) => {
                let s = s.split_once('+').map_or(s.as_str(), |(_, r)| r);
                let s = s.split(['?', '#']).next().unwrap();
                s == u
            }
            // the directory of a local package is its source
            (Some(u), None) => p
                .manifest
                .rsplit_once(['/', '\\'])
                .is_some_and(|(dir, _)| *u == format!("file://{}", crate::world::url_path(dir))),
            (None, _) => true,
        }
    }
}

pub struct MDecl {
    pub toml: String,
    pub kind: Kind,
    pub optional: bool,
    pub key: Option<Key>,
    pub target: Option<String>,
    /// requested features, including the default one if the declaration asks for it
    pub features: Vec<String>,
    pub uses_default: bool,
}

pub struct MNodeDep {
    pub to: usize,
    pub toml: String,
    pub extern_name: String,
    /// indices into the declarations
    pub decls: Vec<usize>,
}

pub struct MPkg {
    pub id: String,
    pub name: String,
    pub version: semver::Version,
    pub source: Option<String>,
    pub manifest: String,
    pub member: bool,
    pub decls: Vec<MDecl>,
    pub features: BTreeMap<String, Vec<String>>,
    pub resolved: BTreeSet<String>,
    pub deps: Vec<MNodeDep>,
}

impl MPkg {
    /// Whether two different dependencies have one extern name
    pub fn alike(&self) -> bool {
        self.deps.iter().enumerate().any(|(i, d)| self.deps[..i].iter().any(|o| o.toml != d.toml && o.extern_name == d.extern_name))
    }
}

pub struct Model {
    pub pkgs: Vec<MPkg>,
    pub index: BTreeMap<String, usize>,
    pub root: Option<usize>,
    pub ws_root: String,
}

#[derive(Debug, Clone, PartialEq, Eq, PartialOrd, Ord)]
pub struct ActiveEdge {
    pub from: usize,
    pub decl: usize,
    pub to: usize,
    pub kind: Kind,
    pub cfg: Option<String>,
    pub features: BTreeSet<String>,
}

#[derive(Default, Debug)]
pub struct Expected {
    pub roots: BTreeSet<usize>,
    pub crates: BTreeSet<usize>,
    pub features: BTreeMap<usize, BTreeSet<String>>,
    /// links whose two ends are in the graph
    pub edges: BTreeSet<ActiveEdge>,
    /// (from, to, feature): features of dependencies turned on by features of `from`
    pub toggled: BTreeSet<(usize, usize, String)>,
    /// statistics
    pub optional_active: usize,
    pub optional_inactive: usize,
    pub weak_applied: usize,
    pub weak_pending: usize,
    pub kind_pruned: usize,
    pub cfg_pruned: usize,
    pub excluded_hit: usize,
}

impl Model {
    pub fn new(md: &cm::Metadata) -> Self {
        let index: BTreeMap<String, usize> =
            md.packages.iter().enumerate().map(|(i, p)| (p.id.repr.clone(), i)).collect();
        let lib_names: Vec<Option<String>> = md
            .packages
            .iter()
            .map(|p| {
                p.targets
                    .iter()
                    .find(|t| {
                        t.kind.iter().any(|k| {
                            use cm::TargetKind as T;
                            matches!(k, T::Lib | T::ProcMacro | T::RLib | T::DyLib | T::CDyLib | T::StaticLib)
                        })
                    })
                    .map(|t| norm(&t.name))
            })
            .collect();
        let mut pkgs: Vec<MPkg> = md
            .packages
            .iter()
            .map(|p| MPkg {
                id: p.id.repr.clone(),
                name: p.name.clone(),
                version: p.version.clone(),
                source: p.source.as_ref().map(|s| s.repr.clone()),
                manifest: p.manifest_path.to_string(),
                member: md.workspace_members.contains(&p.id),
                decls: p
                    .dependencies
                    .iter()
                    .map(|d| MDecl {
                        toml: d.rename.clone().unwrap_or_else(|| d.name.clone()),
                        kind: Kind::of(d.kind),
                        optional: d.optional,
                        key: d.target.as_deref().map(Key::parse),
                        target: d.target.clone(),
                        features: d.features.clone(),
                        uses_default: d.uses_default_features,
                    })
                    .collect(),
                features: p.features.clone(),
                resolved: BTreeSet::new(),
                deps: Vec::new(),
            })
            .collect();
        let resolve = md.resolve.as_ref().expect("harness: no resolve");
        for n in &resolve.nodes {
            let i = index[&n.id.repr];
            pkgs[i].resolved = n.features.iter().cloned().collect();
            for nd in &n.deps {
                let to = index[&nd.pkg.repr];
                let mut decls = Vec::new();
                let mut toml = None;
                for dk in &nd.dep_kinds {
                    // (toml name, kind, target) is unique in a manifest, and the
                    // name cargo prints tells the toml name
                    let from_there = |d: &cm::Dependency| match (&d.source, &md.packages[to].source) {
                        (Some(d), Some(p)) => {
                            let p = if p.repr.starts_with("git+") { p.repr.rsplit_once('#').map_or(&p.repr[..], |p| p.0) } else { &p.repr };
                            d == p
                        }
                        (None, None) => d.path.as_deref() == md.packages[to].manifest_path.parent(),
                        _ => false,
                    };
                    let find_from = |renamed: bool, from: bool| {
                        md.packages[i].dependencies.iter().position(|d| {
                            (!from || from_there(d)) && d.name == md.packages[to].name
                                && d.kind == dk.kind
                                && d.target == dk.target
                                && match &d.rename {
                                    // whatever it is renamed to, cargo prints the library's name
                                    _ if to == i => d.path.as_deref() == md.packages[i].manifest_path.parent(),
                                    Some(r) => renamed && norm(r) == nd.name,
                                    None => {
                                        !renamed
                                            && lib_names[to]
                                                .as_ref()
                                                .is_none_or(|l| *l == nd.name)
                                    }
                                }
                        })
                    };
                    // two of one extern name differ by where they come from
                    let find = |renamed: bool| find_from(renamed, true);
                    let anywhere = |renamed: bool| find_from(renamed, false);
                    let k = find(true).or_else(|| find(false)).or_else(|| anywhere(true)).or_else(|| anywhere(false)).unwrap_or_else(|| {
                        panic!("harness: no declaration for {} -> {} {dk:?}", n.id.repr, nd.pkg.repr)
                    });
                    toml = Some(pkgs[i].decls[k].toml.clone());
                    decls.push(k);
                }
                if let Some(toml) = toml {
                    pkgs[i].deps.push(MNodeDep { to, toml, extern_name: nd.name.clone(), decls });
                }
            }
        }
        let root = resolve.root.as_ref().map(|r| index[&r.repr]);
        Self {
            pkgs,
            index,
            root,
            ws_root: md.workspace_root.to_string(),
        }
    }

    pub fn roots(&self, conf: &Conf) -> BTreeSet<usize> {
        let members = || (0..self.pkgs.len()).filter(|i| self.pkgs[*i].member);
        if conf.include.is_empty() {
            return match self.root {
                Some(r) if !conf.workspace => BTreeSet::from([r]),
                _ => members().collect(),
            };
        }
        let full = |p: &str| {
            // the generated paths do not exist, or have been made absolute already
            if p.ends_with("/Cargo.toml") { p.to_owned() } else { format!("{}/Cargo.toml", p.trim_end_matches('/')) }
        };
        let inc: BTreeSet<String> = conf.include.iter().map(|p| full(p)).collect();
        if conf.include.len() == 1 && *inc.first().unwrap() == format!("{}/Cargo.toml", self.ws_root) {
            return members().collect();
        }
        members().filter(|i| inc.contains(&self.pkgs[*i].manifest)).collect()
    }

    pub fn expect(&self, conf: &Conf) -> Expected {
        self.expect_with_roots(conf, self.roots(conf), true)
    }

    /// `strong_own`: whether `n/x` enables the crate's own feature `n`, as cargo
    /// has it when `n` is an optional dependency (see the known findings)
    pub fn expect_with_roots(&self, conf: &Conf, roots: BTreeSet<usize>, strong_own: bool) -> Expected {
        let n = self.pkgs.len();
        let specs: Vec<SpecM> = conf.exclude.iter().map(|s| SpecM::parse(s)).collect();
        let excluded: Vec<bool> = self.pkgs.iter().map(|p| specs.iter().any(|s| s.matches(p))).collect();
        let filters: Vec<Filter<'_>> =
            conf.targets.iter().map(|(t, f)| Filter { triple: t, features: f }).collect();

        let mut crates: BTreeSet<usize> = roots.iter().copied().filter(|r| !excluded[*r]).collect();
        let mut feats: Vec<BTreeSet<String>> = vec![BTreeSet::new(); n];
        for r in &crates {
            feats[*r] = self.pkgs[*r].resolved.clone();
        }
        // static part: which declarations pass the kind and target filters
        let pass: Vec<Vec<bool>> = self
            .pkgs
            .iter()
            .map(|p| {
                p.decls
                    .iter()
                    .map(|d| {
                        !conf.ignored(d.kind, p.member) && d.key.as_ref().is_none_or(|k| k.allowed(&filters))
                    })
                    .collect()
            })
            .collect();

        let mut toggled;
        let mut edges;
        let mut requested: Vec<BTreeSet<String>>;
        loop {
            toggled = BTreeSet::new();
            edges = BTreeSet::new();
            requested = vec![BTreeSet::new(); n];
            let mut new_crates = crates.clone();
            let mut new_feats = feats.clone();
            for &a in &crates {
                let p = &self.pkgs[a];
                let mut fwd: BTreeSet<(&str, &str)> = BTreeSet::new();
                for f in &feats[a] {
                    for it in p.features.get(f).into_iter().flatten() {
                        if let Some(t) = it.strip_prefix("dep:") {
                            requested[a].insert(t.to_owned());
                        } else if let Some((t, x)) = it.split_once("?/") {
                            fwd.insert((t, x));
                        } else if let Some((t, x)) = it.split_once('/') {
                            requested[a].insert(t.to_owned());
                            fwd.insert((t, x));
                            if strong_own && p.features.contains_key(t) && p.decls.iter().any(|d| d.toml == t && d.optional) {
                                new_feats[a].insert(t.to_owned());
                            }
                        } else {
                            new_feats[a].insert(it.clone());
                        }
                    }
                }
                for nd in &p.deps {
                    let mut linked = false;
                    for &k in &nd.decls {
                        let d = &p.decls[k];
                        if !pass[a][k] || (d.optional && !requested[a].contains(&d.toml)) {
                            continue;
                        }
                        linked = true;
                        if excluded[nd.to] {
                            continue;
                        }
                        new_crates.insert(nd.to);
                        let mut fs: BTreeSet<String> = d.features.iter().cloned().collect();
                        if d.uses_default && self.pkgs[nd.to].resolved.contains("default") {
                            fs.insert("default".to_owned());
                        }
                        new_feats[nd.to].extend(fs.iter().cloned());
                        edges.insert(ActiveEdge {
                            from: a,
                            decl: k,
                            to: nd.to,
                            kind: d.kind,
                            cfg: d.target.clone(),
                            features: fs,
                        });
                    }
                    if linked && !excluded[nd.to] {
                        for (t, x) in &fwd {
                            // cargo has none of it when the dependency is a dev
                            // dependency of a member, and some other crate
                            // turned the member's feature on
                            if *t == nd.toml && self.pkgs[nd.to].resolved.contains(*x) {
                                new_feats[nd.to].insert((*x).to_owned());
                                toggled.insert((a, nd.to, (*x).to_owned()));
                            }
                        }
                    }
                }
            }
            if new_crates == crates && new_feats == feats {
                break;
            }
            crates = new_crates;
            feats = new_feats;
        }

        let mut e = Expected {
            roots,
            features: crates.iter().map(|c| (*c, feats[*c].clone())).collect(),
            edges,
            toggled,
            ..Default::default()
        };
        // statistics, over the crates of the graph
        for &a in &crates {
            let p = &self.pkgs[a];
            for nd in &p.deps {
                for &k in &nd.decls {
                    let d = &p.decls[k];
                    if conf.ignored(d.kind, p.member) {
                        e.kind_pruned += 1;
                    } else if !pass[a][k] {
                        e.cfg_pruned += 1;
                    } else if d.optional {
                        if requested[a].contains(&d.toml) {
                            e.optional_active += 1;
                        } else {
                            e.optional_inactive += 1;
                        }
                    }
                    if excluded[nd.to] {
                        e.excluded_hit += 1;
                    }
                }
            }
            for f in &feats[a] {
                for it in p.features.get(f).into_iter().flatten() {
                    if let Some((t, _)) = it.split_once("?/") {
                        if e.edges.iter().any(|x| x.from == a && p.decls[x.decl].toml == t) {
                            e.weak_applied += 1;
                        } else {
                            e.weak_pending += 1;
                        }
                    }
                }
            }
        }
        e.crates = crates;
        e
    }
}
