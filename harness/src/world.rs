//! Generated dependency worlds.
//!
//! A raw genotype of small integers is decoded into a set of manifests that
//! cargo would accept, and a simulation of cargo's (version 1) resolution turns
//! those into the metadata document `cargo metadata` would print for them.

use crate::cfgs::{self, Key};
use krates::cm;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, Serialize, Deserialize, Default, PartialEq)]
pub struct ItemG {
    pub kind: u8,
    pub a: u8,
    pub b: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize, Default, PartialEq)]
pub struct FeatG {
    pub name: u8,
    pub items: Vec<ItemG>,
}

#[derive(Clone, Debug, Serialize, Deserialize, Default, PartialEq)]
pub struct DepG {
    pub to: u8,
    pub kind: u8,
    pub opt: bool,
    pub alias: u8,
    pub target: Vec<u8>,
    pub nodef: bool,
    pub feats: Vec<u8>,
    pub req: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize, Default, PartialEq)]
pub struct PkgG {
    pub name: u8,
    pub ver: u8,
    pub src: u8,
    pub lib: u8,
    pub sel: u8,
    pub dir: u8,
    pub deps: Vec<DepG>,
    pub feats: Vec<FeatG>,
}

#[derive(Clone, Debug, Serialize, Deserialize, Default, PartialEq)]
pub struct WorldG {
    pub opaque: bool,
    /// which member is the root package, if any
    pub root: u8,
    pub perm: Vec<u8>,
    pub pkgs: Vec<PkgG>,
}

pub fn item_g() -> impl Strategy<Value = ItemG> {
    (any::<u8>(), any::<u8>(), any::<u8>()).prop_map(|(kind, a, b)| ItemG { kind, a, b })
}

pub fn feat_g() -> impl Strategy<Value = FeatG> {
    (any::<u8>(), vec(item_g(), 0..4)).prop_map(|(name, items)| FeatG { name, items })
}

pub fn target_g() -> impl Strategy<Value = Vec<u8>> {
    prop_oneof![
        3 => Just(vec![]),
        1 => vec(any::<u8>(), 1..12),
    ]
}

pub fn dep_g() -> impl Strategy<Value = DepG> {
    (
        any::<u8>(),
        any::<u8>(),
        any::<bool>(),
        any::<u8>(),
        target_g(),
        prop::bool::weighted(0.3),
        vec(any::<u8>(), 0..3),
        any::<u8>(),
    )
        .prop_map(|(to, kind, opt, alias, target, nodef, feats, req)| DepG {
            to,
            kind,
            opt,
            alias,
            target,
            nodef,
            feats,
            req,
        })
}

pub fn pkg_g(deps: usize, feats: usize) -> impl Strategy<Value = PkgG> {
    (
        any::<u8>(),
        any::<u8>(),
        any::<u8>(),
        any::<u8>(),
        any::<u8>(),
        any::<u8>(),
        vec(dep_g(), 0..=deps),
        vec(feat_g(), 0..=feats),
    )
        .prop_map(|(name, ver, src, lib, sel, dir, deps, feats)| PkgG {
            name,
            ver,
            src,
            lib,
            sel,
            dir,
            deps,
            feats,
        })
}

pub fn world_sized(pkgs: std::ops::RangeInclusive<usize>, deps: usize, feats: usize) -> BoxedStrategy<WorldG> {
    (
        any::<bool>(),
        any::<u8>(),
        prop_oneof![3 => Just(vec![]), 1 => vec(any::<u8>(), 1..8)],
        vec(pkg_g(deps, feats), pkgs),
    )
        .prop_map(|(opaque, root, perm, pkgs)| WorldG {
            opaque,
            root,
            perm,
            pkgs,
        })
        .boxed()
}

/// The general mix: mostly small worlds, some larger ones
pub fn world_g() -> BoxedStrategy<WorldG> {
    prop_oneof![
        3 => world_sized(1..=5, 5, 4),
        3 => world_sized(3..=9, 5, 4),
        1 => world_sized(8..=16, 7, 5),
        // few packages with plenty of features and declarations each
        2 => world_sized(2..=4, 7, 6),
    ]
    .boxed()
}

// ---------------------------------------------------------------- decoded

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub enum Kind {
    Normal,
    Dev,
    Build,
}

impl Kind {
    pub fn cm(self) -> cm::DependencyKind {
        match self {
            Kind::Normal => cm::DependencyKind::Normal,
            Kind::Dev => cm::DependencyKind::Development,
            Kind::Build => cm::DependencyKind::Build,
        }
    }
    pub fn of(k: cm::DependencyKind) -> Self {
        match k {
            cm::DependencyKind::Normal => Kind::Normal,
            cm::DependencyKind::Development => Kind::Dev,
            cm::DependencyKind::Build => Kind::Build,
        }
    }
    pub fn krates(self) -> krates::DepKind {
        match self {
            Kind::Normal => krates::DepKind::Normal,
            Kind::Dev => krates::DepKind::Dev,
            Kind::Build => krates::DepKind::Build,
        }
    }
    pub fn of_krates(k: krates::DepKind) -> Self {
        match k {
            krates::DepKind::Normal => Kind::Normal,
            krates::DepKind::Dev => Kind::Dev,
            krates::DepKind::Build => Kind::Build,
        }
    }
    pub const ALL: [Kind; 3] = [Kind::Normal, Kind::Dev, Kind::Build];
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Src {
    Registry(usize),
    Git { url: String, query: Option<(&'static str, &'static str)>, commit: String },
    Path { dir: String },
}

pub const REGISTRIES: [&str; 5] = [
    "registry+https://github.com/rust-lang/crates.io-index",
    "registry+https://alt.example.com/git/index",
    "sparse+https://sparse.example.com/index/",
    // those that look like crates.io
    "registry+https://mirror.example.com/rust-lang/crates.io-index",
    "registry+https://github.com/rust-lang/crates.io-index-2",
];

#[derive(Clone, Debug)]
pub struct Decl {
    pub toml: String,
    pub rename: Option<String>,
    pub kind: Kind,
    pub optional: bool,
    pub nodef: bool,
    pub features: Vec<String>,
    pub target: Option<Key>,
    pub req: String,
    /// index of the package it resolves to
    pub to: usize,
}

#[derive(Clone, Debug)]
pub struct Pkg {
    pub name: String,
    pub version: String,
    pub src: Src,
    pub patched: bool,
    pub member: bool,
    pub lib_name: String,
    pub lib_kinds: Vec<cm::TargetKind>,
    pub lib_style: u8,
    pub features: BTreeMap<String, Vec<String>>,
    pub decls: Vec<Decl>,
    pub sel: u8,
}

#[derive(Clone, Debug)]
pub struct World {
    pub pkgs: Vec<Pkg>,
    pub root: Option<usize>,
    pub opaque: bool,
    pub perm: Vec<u8>,
    /// resolved features per package, `None` when the package is not reached
    pub resolved: Vec<Option<BTreeSet<String>>>,
    /// indices of the declarations cargo activated, per package
    pub active: Vec<BTreeSet<usize>>,
}

pub const WS_ROOT: &str = "/kv-none/ws";

static NAMES: &[&str] = &["alpha", "beta", "foo", "foo-bar", "ring", "md-5", "x", "foo2", "gamma", "zeta_core", "Inflector", "deploy"];
static VERSIONS: &[&str] = &["1.0.0", "0.1.0", "2.3.1", "0.2.4", "1.0.10+zstd.1.5.5", "3.0.0-alpha.2", "0.0.3", "10.1.0", "1.2.0", "1.0.10"];
static EXPLICIT: &[&str] = &["default", "std", "alloc", "f1", "f2", "foo", "ren", "simd", "alpha", "x", "serde_json", "deps", "v1.2+x", "_0"];
static RENAMES: &[&str] = &["ren", "foo", "foo-x", "serde_json", "alpha", "md5", "std", "a-b-c", "a_b_c", "Foo", "dep", "serde-json"];
static QUERIES: &[Option<(&str, &str)>] = &[
    None,
    Some(("branch", "main")),
    Some(("branch", "feature/thing")),
    Some(("tag", "v1.0.0")),
    Some(("rev", "3900e8aedc5801e42c1bb747cfd025615bf3b832")),
    Some(("rev", "3900e8a")),
    Some(("branch", "a,b+c@d=e")),
    Some(("tag", "rel(x)'!")),
];

pub fn norm(s: &str) -> String {
    s.replace('-', "_")
}

pub fn compat(v: &str) -> String {
    let v: semver::Version = v.parse().unwrap();
    if !v.pre.is_empty() {
        format!("{v}")
    } else if v.major > 0 {
        format!("{}", v.major)
    } else if v.minor > 0 {
        format!("0.{}", v.minor)
    } else {
        format!("0.0.{}", v.patch)
    }
}

/// `application/x-www-form-urlencoded`, as cargo encodes git references
pub fn form_encode(s: &str) -> String {
    let mut o = String::new();
    for b in s.bytes() {
        match b {
            b'a'..=b'z' | b'A'..=b'Z' | b'0'..=b'9' | b'*' | b'-' | b'.' | b'_' => o.push(b as char),
            b' ' => o.push('+'),
            _ => o.push_str(&format!("%{b:02X}")),
        }
    }
    o
}

/// Percent encoding of a path inside of a file url
pub fn url_path(s: &str) -> String {
    let mut o = String::new();
    for b in s.bytes() {
        match b {
            b' ' | b'"' | b'#' | b'<' | b'>' | b'?' | b'`' | b'{' | b'}' | b'%' | 0..=0x1f | 0x7f.. => {
                o.push_str(&format!("%{b:02X}"))
            }
            _ => o.push(b as char),
        }
    }
    o
}

impl Pkg {
    fn git_url(&self, encode: bool) -> String {
        let Src::Git { url, query, .. } = &self.src else { unreachable!() };
        match query {
            None => format!("git+{url}"),
            Some((k, v)) => {
                let v = if encode { form_encode(v) } else { (*v).to_owned() };
                format!("git+{url}?{k}={v}")
            }
        }
    }

    pub fn id(&self, opaque: bool) -> String {
        let (name, ver) = (&self.name, &self.version);
        match &self.src {
            Src::Registry(r) => {
                let url = REGISTRIES[*r];
                if opaque { format!("{name} {ver} ({url})") } else { format!("{url}#{name}@{ver}") }
            }
            Src::Git { url, commit, .. } => {
                if opaque {
                    format!("{name} {ver} ({}#{commit})", self.git_url(false))
                } else if url.rsplit('/').next() == Some(name) {
                    format!("{}#{ver}", self.git_url(true))
                } else {
                    format!("{}#{name}@{ver}", self.git_url(true))
                }
            }
            Src::Path { dir } => {
                let url = format!("path+file://{}", url_path(dir));
                if opaque {
                    format!("{name} {ver} ({url})")
                } else if dir.rsplit('/').next() == Some(name) {
                    format!("{url}#{ver}")
                } else {
                    format!("{url}#{name}@{ver}")
                }
            }
        }
    }

    /// The three components the id stands for, whatever its format
    pub fn components(&self) -> (String, String, String) {
        let src = match &self.src {
            Src::Registry(r) => REGISTRIES[*r].to_owned(),
            Src::Git { .. } => self.git_url(false),
            Src::Path { dir } => format!("path+file://{}", url_path(dir)),
        };
        (self.name.clone(), self.version.clone(), src)
    }

    pub fn source(&self) -> Option<String> {
        match &self.src {
            Src::Registry(r) => Some(REGISTRIES[*r].to_owned()),
            Src::Git { commit, .. } => Some(format!("{}#{commit}", self.git_url(false))),
            Src::Path { .. } => None,
        }
    }

    /// `source`, `path` and `registry` of a declaration of this package
    fn declared(&self) -> (Option<String>, Option<String>, Option<String>) {
        match &self.src {
            _ if self.patched => (Some(REGISTRIES[0].to_owned()), None, None),
            Src::Registry(0) => (Some(REGISTRIES[0].to_owned()), None, None),
            Src::Registry(r) => (
                Some(REGISTRIES[*r].to_owned()),
                None,
                Some(REGISTRIES[*r].trim_start_matches("registry+").to_owned()),
            ),
            Src::Git { .. } => (Some(self.git_url(false)), None, None),
            Src::Path { dir } => (None, Some(dir.clone()), None),
        }
    }

    fn src_key(&self) -> (Option<String>, Option<String>) {
        let (s, p, _) = self.declared();
        (s, p)
    }

    pub fn manifest_path(&self) -> String {
        match &self.src {
            Src::Registry(r) => format!("/kv-none/cargo/registry/src/r{r}/{}-{}/Cargo.toml", self.name, self.version),
            Src::Git { url, commit, .. } => format!(
                "/kv-none/cargo/git/checkouts/{}-{}/{}/Cargo.toml",
                url.rsplit('/').next().unwrap(),
                &commit[..7],
                self.name
            ),
            Src::Path { dir } => format!("{dir}/Cargo.toml"),
        }
    }
}

fn decode_pkg(g: &PkgG, i: usize, used: &mut BTreeSet<String>) -> Option<Pkg> {
    let name = NAMES[g.name as usize % NAMES.len()].to_owned();
    let version = VERSIONS[g.ver as usize % VERSIONS.len()].to_owned();
    let mut patched = false;
    let mut member = false;
    let src = if i == 0 {
        member = true;
        0
    } else {
        [1, 1, 1, 1, 1, 0, 0, 2, 2, 3, 4, 5][g.src as usize % 12]
    };
    let src = match src {
        0 | 3 => {
            member |= src == 0;
            patched = src == 3 && g.dir % 3 == 1;
            let parent = match (member, g.dir % 4) {
                (true, 0) => WS_ROOT.to_owned(),
                (true, 1) => format!("{WS_ROOT}/crates"),
                (true, 2) => format!("{WS_ROOT}/some dir"),
                (true, _) => format!("{WS_ROOT}/c%d{{x}}"),
                (false, 0) => "/kv-none/other".to_owned(),
                (false, 1) => "/kv-none/o ther".to_owned(),
                (false, _) => "/kv-none/deep/er/other".to_owned(),
            };
            let leaf = match (g.dir >> 2) % 12 {
                0 | 3 => format!("d{i}"),
                6 => format!("d{i}.toml"),
                9 => format!("d{i}Cargo.toml"),
                _ => name.clone(),
            };
            // in the directory of another one
            let parent = match used.iter().find(|d| !member || d.starts_with(WS_ROOT)) {
                Some(d) if i > 0 && g.dir % 16 == 7 => d.clone(),
                _ => parent,
            };
            let mut dir = format!("{parent}/{leaf}");
            if !used.insert(dir.clone()) {
                dir = format!("{parent}/u{i}");
                used.insert(dir.clone());
            }
            Src::Path { dir }
        }
        1 => Src::Registry(0),
        2 => {
            let url = match g.dir % 4 {
                0 => format!("https://git.example.com/org/{name}"),
                1 => "https://git.example.com/org/mono".to_owned(),
                2 => "ssh://git@git.example.com/org/mono.git".to_owned(),
                _ => "https://git.example.com/org/foo".to_owned(),
            };
            let query = QUERIES[(g.dir >> 2) as usize % QUERIES.len()];
            let h = url.len() * 31 + query.map_or(0, |q| q.1.len() * 7);
            Src::Git {
                url,
                query,
                commit: format!("{h:08x}").repeat(5),
            }
        }
        4 => {
            // a git package that replaces a crates.io one
            patched = true;
            Src::Git {
                url: "https://git.example.com/org/patches".to_owned(),
                query: None,
                commit: "00ff00aa".repeat(5),
            }
        }
        _ => Src::Registry(1 + (g.dir % 4) as usize),
    };
    let (lib_name, lib_kinds) = match g.lib % 12 {
        // the name of another package, or one that others are renamed to
        6 => {
            let k = g.lib as usize / 12;
            let other = if k % 2 == 0 { NAMES[k / 2 % NAMES.len()] } else { RENAMES[k / 2 % RENAMES.len()] };
            (norm(other), vec![cm::TargetKind::Lib])
        }
        0..=5 => (norm(&name), vec![cm::TargetKind::Lib]),
        7 => {
            use cm::TargetKind as T;
            let kinds = [vec![T::Lib], vec![T::RLib], vec![T::DyLib], vec![T::CDyLib], vec![T::StaticLib], vec![T::StaticLib, T::CDyLib]];
            (format!("lib_{}", norm(&name)), kinds[g.lib as usize / 12 % 6].clone())
        }
        8 => (format!("pm_{}", norm(&name)), vec![cm::TargetKind::ProcMacro]),
        9 => (format!("multi_{}", norm(&name)), vec![cm::TargetKind::CDyLib, cm::TargetKind::RLib]),
        10 => (norm(&name), vec![cm::TargetKind::DyLib]),
        _ => (norm(&name), vec![cm::TargetKind::ProcMacro]),
    };
    Some(Pkg {
        name,
        version,
        src,
        patched,
        member,
        lib_name,
        lib_kinds,
        lib_style: g.lib / 12,
        features: BTreeMap::new(),
        decls: Vec::new(),
        sel: g.sel,
    })
}

struct TomlInfo {
    pkg_name: String,
    src_key: (Option<String>, Option<String>),
    any_opt: bool,
    any_non_dev: bool,
    targets: Vec<usize>,
    extern_name: String,
    dep_style: bool,
}

impl World {
    pub fn decode(g: &WorldG) -> World {
        // ---- the packages
        let mut pkgs: Vec<Pkg> = Vec::new();
        let mut gs: Vec<&PkgG> = Vec::new();
        let mut used = BTreeSet::new();
        let mut seen = BTreeSet::new();
        let empty = PkgG::default();
        let first = g.pkgs.first().unwrap_or(&empty);
        for (i, pg) in std::iter::once(first).chain(g.pkgs.iter().skip(1)).enumerate() {
            let Some(p) = decode_pkg(pg, i, &mut used) else { continue };
            let (n, _, s) = p.components();
            if !seen.insert((n, compat(&p.version), s)) {
                continue;
            }
            // at most one replacement for each crates.io package, which then
            // is what every matching requirement gets
            if p.patched && !seen.insert((p.name.clone(), compat(&p.version), "patch".to_owned())) {
                continue;
            }
            pkgs.push(p);
            gs.push(pg);
        }
        // A replaced version does not exist in the registry next to its replacement
        let replaced: BTreeSet<_> =
            pkgs.iter().filter(|p| p.patched).map(|p| (p.name.clone(), compat(&p.version))).collect();
        let keep: Vec<bool> = pkgs
            .iter()
            .map(|p| !(p.src == Src::Registry(0) && replaced.contains(&(p.name.clone(), compat(&p.version)))))
            .collect();
        let mut it = keep.iter();
        pkgs.retain(|_| *it.next().unwrap());
        let mut it = keep.iter();
        gs.retain(|_| *it.next().unwrap());

        let n = pkgs.len();
        // ---- pass 1: declarations, without features
        let mut tomls: Vec<BTreeMap<String, TomlInfo>> = Vec::new();
        let mut decl_gs: Vec<Vec<&DepG>> = Vec::new();
        for i in 0..n {
            let mut info: BTreeMap<String, TomlInfo> = BTreeMap::new();
            let mut decls: Vec<Decl> = Vec::new();
            let mut dgs = Vec::new();
            for dg in &gs[i].deps {
                let kind = match dg.kind % 8 {
                    0..=4 => Kind::Normal,
                    5 => Kind::Build,
                    _ => Kind::Dev,
                };
                let to = if kind == Kind::Dev {
                    dg.to as usize % n
                } else if i + 1 < n {
                    i + 1 + dg.to as usize % (n - i - 1)
                } else {
                    continue;
                };
                let ok = match (&pkgs[i].src, &pkgs[to].src) {
                    (Src::Registry(0), Src::Registry(0)) => true,
                    (Src::Registry(0), _) => pkgs[to].patched,
                    (Src::Registry(_), Src::Registry(_)) => true,
                    (Src::Registry(_), _) => pkgs[to].patched,
                    (Src::Git { .. }, Src::Path { .. }) => pkgs[to].patched,
                    _ => true,
                };
                if !ok {
                    continue;
                }
                let tp = &pkgs[to];
                let src_key = tp.src_key();
                let mut toml = if dg.alias.is_multiple_of(4) {
                    RENAMES[(dg.alias / 4) as usize % RENAMES.len()].to_owned()
                } else {
                    tp.name.clone()
                };
                if let Some((t, _)) = info.iter().find(|(_, inf)| inf.targets.contains(&to)) {
                    toml = t.clone();
                }
                // `package = ".."` can also say the name it has anyway
                let rename = (toml != tp.name || dg.alias % 32 == 5).then(|| toml.clone());
                let extern_name = if rename.is_some() { norm(&toml) } else { tp.lib_name.clone() };
                match info.get(&toml) {
                    Some(inf) => {
                        if inf.pkg_name != tp.name || inf.src_key != src_key || inf.extern_name != extern_name {
                            continue;
                        }
                    }
                    None => {
                        // two libraries of one name, or a name that only differs by its
                        // separator from another one: cargo goes along with it as long as
                        // these are different packages
                        let alike = |k: &String, inf: &TomlInfo| inf.extern_name == extern_name || norm(k) == norm(&toml);
                        if info.iter().any(|(k, inf)| {
                            alike(k, inf)
                                && (dg.alias < 128
                                    || inf.pkg_name == tp.name && inf.src_key == src_key
                                    || inf.targets.iter().chain([&to]).any(|t| pkgs[*t].patched || *t == i))
                        }) {
                            continue;
                        }
                    }
                }
                let target = cfgs::decode_key(&dg.target);
                let ttext = target.as_ref().map(|t| t.text());
                if decls
                    .iter()
                    .any(|d| d.toml == toml && d.kind == kind && d.target.as_ref().map(|t| t.text()) == ttext)
                {
                    continue;
                }
                let optional = dg.opt && kind != Kind::Dev;
                let req = req_for(&tp.version, dg.req, matches!(tp.src, Src::Registry(_)) || tp.patched);
                let inf = info.entry(toml.clone()).or_insert_with(|| TomlInfo {
                    pkg_name: tp.name.clone(),
                    src_key,
                    any_opt: false,
                    any_non_dev: false,
                    targets: Vec::new(),
                    extern_name,
                    dep_style: dg.req >= 128,
                });
                inf.any_opt |= optional;
                inf.any_non_dev |= kind != Kind::Dev;
                if !inf.targets.contains(&to) {
                    inf.targets.push(to);
                }
                decls.push(Decl {
                    toml,
                    rename,
                    kind,
                    optional,
                    nodef: dg.nodef,
                    features: Vec::new(),
                    target,
                    req,
                    to,
                });
                dgs.push(dg);
            }
            // feature names
            let mut names: BTreeSet<String> =
                gs[i].feats.iter().map(|f| EXPLICIT[f.name as usize % EXPLICIT.len()].to_owned()).collect();
            let any_explicit = !names.is_empty();
            let explicit = names.clone();
            for (t, inf) in &mut info {
                if !inf.any_opt {
                    continue;
                }
                if explicit.contains(t) {
                    inf.dep_style = true;
                } else if !any_explicit {
                    inf.dep_style = false;
                }
                if !inf.dep_style {
                    names.insert(t.clone());
                }
            }
            pkgs[i].features = names.into_iter().map(|n| (n, Vec::new())).collect();
            pkgs[i].decls = decls;
            tomls.push(info);
            decl_gs.push(dgs);
        }

        // ---- pass 2: feature lists
        let names: Vec<Vec<String>> = pkgs.iter().map(|p| p.features.keys().cloned().collect()).collect();
        for i in 0..n {
            let info = &tomls[i];
            let opt: Vec<&String> = info.iter().filter(|(_, f)| f.any_opt).map(|(t, _)| t).collect();
            let nondev: Vec<&String> = info.iter().filter(|(_, f)| f.any_non_dev).map(|(t, _)| t).collect();
            let mut lists: BTreeMap<String, Vec<String>> = BTreeMap::new();
            let common = |t: &str| -> Vec<&String> {
                let inf = &info[t];
                names[inf.targets[0]]
                    .iter()
                    .filter(|f| inf.targets.iter().all(|x| names[*x].contains(f)))
                    .collect()
            };
            let mut has_dep = BTreeSet::new();
            for fg in &gs[i].feats {
                let fname = EXPLICIT[fg.name as usize % EXPLICIT.len()].to_owned();
                let mut list: Vec<String> = lists.remove(&fname).unwrap_or_default();
                for it in &fg.items {
                    let simple = |a: u8| {
                        let f = &names[i][a as usize % names[i].len()];
                        (*f != fname).then(|| f.clone())
                    };
                    let e = match it.kind % 8 {
                        0 | 1 => simple(it.a),
                        2 | 3 if !opt.is_empty() => {
                            let t = opt[it.a as usize % opt.len()];
                            if info[t].dep_style {
                                has_dep.insert(t.clone());
                                Some(format!("dep:{t}"))
                            } else {
                                (*t != fname).then(|| t.clone())
                            }
                        }
                        4 | 5 if !nondev.is_empty() => {
                            let t = nondev[it.a as usize % nondev.len()];
                            let c = common(t);
                            (!c.is_empty()).then(|| format!("{t}/{}", c[it.b as usize % c.len()]))
                        }
                        6 | 7 if !opt.is_empty() => {
                            let t = opt[it.a as usize % opt.len()];
                            let c = common(t);
                            (!c.is_empty()).then(|| format!("{t}?/{}", c[it.b as usize % c.len()]))
                        }
                        _ => simple(it.a),
                    };
                    if let Some(e) = e {
                        if !list.contains(&e) {
                            list.push(e);
                        }
                    }
                }
                lists.insert(fname, list);
            }
            // `dep:` has to be used somewhere for the style to apply
            for t in &opt {
                if info[*t].dep_style {
                    if !has_dep.contains(*t) {
                        let key = if lists.contains_key(*t) { (*t).clone() } else { lists.keys().next().unwrap().clone() };
                        lists.get_mut(&key).unwrap().push(format!("dep:{t}"));
                    }
                } else {
                    lists.insert((*t).clone(), vec![format!("dep:{t}")]);
                }
            }
            pkgs[i].features = lists;
            for (k, dg) in decl_gs[i].iter().enumerate() {
                let to = pkgs[i].decls[k].to;
                let mut fs = Vec::new();
                if !names[to].is_empty() {
                    for f in &dg.feats {
                        let f = names[to][*f as usize % names[to].len()].clone();
                        if !fs.contains(&f) {
                            fs.push(f);
                        }
                    }
                }
                pkgs[i].decls[k].features = fs;
            }
        }

        // ---- what cargo makes of it
        let mut w = World {
            root: None,
            opaque: g.opaque,
            perm: g.perm.clone(),
            resolved: vec![None; n],
            active: vec![BTreeSet::new(); n],
            pkgs,
        };
        let members: Vec<usize> = (0..n).filter(|i| w.pkgs[*i].member).collect();
        if g.root % 3 == 1 {
            w.root = Some(members[(g.root / 3) as usize % members.len()]);
        }
        w.resolve();
        w
    }

    /// The features chosen on the command line for a member
    pub fn selected(&self, i: usize) -> BTreeSet<String> {
        let p = &self.pkgs[i];
        let mut s = BTreeSet::new();
        let d = || p.features.contains_key("default").then(|| "default".to_owned());
        match p.sel % 5 {
            0 | 4 => s.extend(d()),
            1 => {}
            2 => s.extend(p.features.keys().cloned()),
            _ => {
                if p.sel & 128 != 0 {
                    s.extend(d());
                }
                let k = p.features.len();
                if k > 0 {
                    s.insert(p.features.keys().nth((p.sel >> 2) as usize % k).unwrap().clone());
                    s.insert(p.features.keys().nth((p.sel >> 4) as usize % k).unwrap().clone());
                }
            }
        }
        s
    }

    /// After changes to the packages
    pub fn resolve_again(&mut self) {
        self.resolved.iter_mut().for_each(|r| *r = None);
        self.active.iter_mut().for_each(BTreeSet::clear);
        self.resolve();
    }

    fn resolve(&mut self) {
        let n = self.pkgs.len();
        // feature requests not yet propagated; whether for a member by itself, which
        // is what its dev dependencies go by
        let mut work: Vec<(usize, BTreeSet<String>, bool)> =
            (0..n).filter(|i| self.pkgs[*i].member).map(|i| (i, self.selected(i), true)).collect();
        while let Some((i, req, own)) = work.pop() {
            let p = &self.pkgs[i];
            let first = self.resolved[i].is_none();
            let before = self.resolved[i].clone().unwrap_or_default();
            let closure = |mut feats: BTreeSet<String>| {
                // closure over the package's own features, and what they ask of dependencies
                let mut deps: BTreeMap<String, BTreeSet<String>> = BTreeMap::new();
                loop {
                    let mut new = feats.clone();
                    for f in &feats {
                        for it in p.features.get(f).into_iter().flatten() {
                            if let Some(t) = it.strip_prefix("dep:") {
                                deps.entry(t.to_owned()).or_default();
                            } else if let Some((t, x)) = it.split_once("?/") {
                                deps.entry(t.to_owned()).or_default().insert(x.to_owned());
                            } else if let Some((t, x)) = it.split_once('/') {
                                if p.decls.iter().any(|d| d.toml == t && d.optional) && p.features.contains_key(t) {
                                    new.insert(t.to_owned());
                                }
                                deps.entry(t.to_owned()).or_default().insert(x.to_owned());
                            } else {
                                new.insert(it.clone());
                            }
                        }
                    }
                    if new == feats {
                        break;
                    }
                    feats = new;
                }
                (feats, deps)
            };
            let (_, own_deps) = if own { closure(req.clone()) } else { Default::default() };
            let (feats, deps) = closure(before.iter().cloned().chain(req).collect());
            if !first && !own && feats == before {
                continue;
            }
            self.resolved[i] = Some(feats);
            for (k, d) in p.decls.iter().enumerate() {
                let dev = d.kind == Kind::Dev;
                if dev && !own {
                    continue;
                }
                let deps = if dev { &own_deps } else { &deps };
                if d.optional && !deps.contains_key(&d.toml) {
                    continue;
                }
                let mut want: BTreeSet<String> = d.features.iter().cloned().collect();
                if !d.nodef && self.pkgs[d.to].features.contains_key("default") {
                    want.insert("default".to_owned());
                }
                want.extend(deps.get(&d.toml).into_iter().flatten().cloned());
                self.active[i].insert(k);
                let known = self.resolved[d.to].as_ref();
                if known.is_none_or(|k| !want.is_subset(k)) {
                    work.push((d.to, want, false));
                }
            }
        }
    }

    /// The name cargo prints for a dependency. A package always goes by its
    /// library's name for itself
    pub fn extern_name(&self, from: usize, d: &Decl) -> String {
        if d.rename.is_some() && d.to != from { norm(&d.toml) } else { self.pkgs[d.to].lib_name.clone() }
    }

    fn shuffle<T>(&self, salt: usize, v: &mut [T]) {
        if self.perm.is_empty() {
            return;
        }
        for i in (1..v.len()).rev() {
            let b = self.perm[(i + salt) % self.perm.len()] as usize + salt * 7;
            v.swap(i, b % (i + 1));
        }
    }

    pub fn metadata(&self) -> cm::Metadata {
        self.metadata_as(self.opaque)
    }

    pub fn metadata_as(&self, opaque: bool) -> cm::Metadata {
        let pid = |i: usize| cm::PackageId {
            repr: self.pkgs[i].id(opaque),
        };
        let mut order: Vec<usize> = (0..self.pkgs.len()).filter(|i| self.resolved[*i].is_some()).collect();
        order.sort_by_key(|i| self.pkgs[*i].id(opaque));

        let mut packages: Vec<cm::Package> = order.iter().map(|i| self.package(*i, opaque)).collect();
        let mut nodes: Vec<cm::Node> = Vec::new();
        for &i in &order {
            let mut by: BTreeMap<usize, cm::NodeDep> = BTreeMap::new();
            for k in &self.active[i] {
                let d = &self.pkgs[i].decls[*k];
                let nd = by.entry(d.to).or_insert_with(|| cm::NodeDep {
                    name: self.extern_name(i, d),
                    pkg: pid(d.to),
                    dep_kinds: Vec::new(),
                });
                nd.dep_kinds.push(cm::DepKindInfo {
                    kind: d.kind.cm(),
                    target: d.target.as_ref().map(|t| t.text()),
                });
            }
            let mut deps: Vec<_> = by.into_values().collect();
            deps.sort_by(|a, b| a.pkg.cmp(&b.pkg));
            for nd in &mut deps {
                nd.dep_kinds.sort_by_key(|d| (Kind::of(d.kind), d.target.clone()));
                self.shuffle(1, &mut nd.dep_kinds);
            }
            self.shuffle(2, &mut deps);
            let dependencies = deps.iter().map(|d| d.pkg.clone()).collect();
            let mut features: Vec<String> = self.resolved[i].iter().flatten().cloned().collect();
            self.shuffle(3, &mut features);
            nodes.push(cm::Node {
                id: pid(i),
                deps,
                dependencies,
                features,
            });
        }
        let mut members: Vec<_> = order.iter().filter(|i| self.pkgs[**i].member).map(|i| pid(*i)).collect();
        self.shuffle(4, &mut members);
        self.shuffle(5, &mut packages);
        self.shuffle(6, &mut nodes);
        let workspace_root = match self.root {
            Some(r) => {
                let m = self.pkgs[r].manifest_path();
                m.strip_suffix("/Cargo.toml").unwrap().to_owned()
            }
            None => WS_ROOT.to_owned(),
        };
        cm::Metadata {
            packages,
            workspace_members: members.clone(),
            workspace_default_members: cm::WorkspaceDefaultMembers(Some(members)),
            resolve: Some(cm::Resolve {
                nodes,
                root: self.root.map(pid),
            }),
            target_directory: format!("{workspace_root}/target").into(),
            workspace_root: workspace_root.into(),
            workspace_metadata: serde_json::Value::Null,
            version: 1,
        }
    }

    fn package(&self, i: usize, opaque: bool) -> cm::Package {
        let p = &self.pkgs[i];
        let manifest_path = p.manifest_path();
        let dir = manifest_path.strip_suffix("/Cargo.toml").unwrap().to_owned();
        let target = |name: &str, kind: Vec<cm::TargetKind>, ct: Vec<cm::CrateType>, path: &str| cm::Target {
            name: name.to_owned(),
            kind,
            crate_types: ct,
            required_features: Vec::new(),
            src_path: format!("{dir}/{path}").into(),
            edition: cm::Edition::E2021,
            doctest: true,
            test: true,
            doc: true,
        };
        // older cargo versions print the default library name verbatim
        let lib = if p.lib_style & 1 == 1 && p.lib_name == norm(&p.name) { p.name.clone() } else { p.lib_name.clone() };
        let mut targets = vec![target(&lib, p.lib_kinds.clone(), vec![cm::CrateType::Lib], "src/lib.rs")];
        if p.lib_style & 2 == 2 {
            targets.insert(0, target("build-script-build", vec![cm::TargetKind::CustomBuild], vec![cm::CrateType::Bin], "build.rs"));
        }
        if p.lib_style & 4 == 4 {
            targets.push(target("some-bin", vec![cm::TargetKind::Bin], vec![cm::CrateType::Bin], "src/main.rs"));
        }
        cm::Package {
            name: p.name.clone(),
            version: p.version.parse().unwrap(),
            authors: Vec::new(),
            id: cm::PackageId { repr: p.id(opaque) },
            source: p.source().map(|repr| cm::Source { repr }),
            description: Some(format!("package number {i}")),
            dependencies: p
                .decls
                .iter()
                .map(|d| {
                    let (source, path, registry) = self.pkgs[d.to].declared();
                    cm::Dependency {
                        name: self.pkgs[d.to].name.clone(),
                        source,
                        req: d.req.parse().unwrap(),
                        kind: d.kind.cm(),
                        optional: d.optional,
                        uses_default_features: !d.nodef,
                        features: d.features.clone(),
                        target: d.target.as_ref().map(|t| t.text()),
                        rename: d.rename.clone(),
                        registry,
                        path: path.map(Into::into),
                    }
                })
                .collect(),
            license: None,
            license_file: None,
            targets,
            features: p.features.clone(),
            manifest_path: manifest_path.into(),
            categories: Vec::new(),
            keywords: Vec::new(),
            readme: None,
            repository: None,
            homepage: None,
            documentation: None,
            edition: cm::Edition::E2021,
            metadata: serde_json::Value::Null,
            links: None,
            publish: None,
            default_run: None,
            rust_version: None,
        }
    }
}

fn req_for(version: &str, r: u8, registry: bool) -> String {
    let v: semver::Version = version.parse().unwrap();
    let base = if v.pre.is_empty() {
        format!("{}.{}.{}", v.major, v.minor, v.patch)
    } else {
        format!("{}.{}.{}-{}", v.major, v.minor, v.patch, v.pre)
    };
    if !v.pre.is_empty() {
        return match r % 4 {
            0 if !registry => "*".to_owned(),
            1 => format!("={base}"),
            _ => format!("^{base}"),
        };
    }
    match r % 8 {
        0 | 1 => format!("^{base}"),
        2 => format!("={base}"),
        3 => format!(">={base}"),
        4 => ">=0.0.0".to_owned(),
        5 => "*".to_owned(),
        6 => format!("~{}.{}", v.major, v.minor),
        _ => format!(">={base}, <{}.0.0", v.major + 1),
    }
}
