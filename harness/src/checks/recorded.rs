//! The documents that cargo printed for real workspaces and that the tests of
//! krates are about, cut down to what some of their packages need.

use super::*;
use crate::model::Conf;
use krates::cm;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::OnceLock;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RecG {
    doc: u8,
    /// which packages are the members: those that are if none
    roots: Vec<u16>,
    virt: bool,
    conf: ConfG,
}

pub fn recorded() -> BoxedStrategy<RecG> {
    with(conf::conf_g())
}

pub fn with(conf: BoxedStrategy<ConfG>) -> BoxedStrategy<RecG> {
    let roots = prop_oneof![
        1 => Just(vec![]),
        4 => proptest::collection::vec(any::<u16>(), 1..3),
        1 => proptest::collection::vec(any::<u16>(), 1..9),
    ];
    (any::<u8>(), roots, any::<bool>(), conf)
        .prop_map(|(doc, roots, virt, conf)| RecG { doc, roots, virt, conf })
        .boxed()
}

fn documents() -> &'static [cm::Metadata] {
    static P: OnceLock<Vec<cm::Metadata>> = OnceLock::new();
    P.get_or_init(|| {
        let mut files: Vec<_> = std::fs::read_dir("/repo/tests")
            .into_iter()
            .flatten()
            .flatten()
            .map(|e| e.path())
            .filter(|p| p.extension().is_some_and(|e| e == "json"))
            .collect();
        files.sort();
        files
            .iter()
            .filter_map(|f| serde_json::from_str::<cm::Metadata>(&std::fs::read_to_string(f).ok()?).ok())
            .filter(|md| md.resolve.is_some() && md.packages.iter().all(|p| p.manifest_path.as_str().starts_with('/')))
            .collect()
    })
}

impl Input for RecG {
    fn load(&self) -> (cm::Metadata, Conf) {
        let all = documents();
        if all.is_empty() {
            let w = World::decode(&world::WorldG::default());
            return (w.metadata(), Conf::default());
        }
        let mut md = all[self.doc as usize % all.len()].clone();
        let n = md.packages.len();
        if !self.roots.is_empty() {
            let mut ids: Vec<cm::PackageId> = Vec::new();
            for r in &self.roots {
                let id = &md.packages[*r as usize % n].id;
                if !ids.contains(id) {
                    ids.push(id.clone());
                }
            }
            let resolve = md.resolve.as_mut().unwrap();
            resolve.root = (!self.virt).then(|| ids[0].clone());
            if !self.virt {
                let p = md.packages.iter().find(|p| p.id == ids[0]).unwrap();
                md.workspace_root = p.manifest_path.parent().unwrap().to_owned();
            }
            md.workspace_members = ids;
        }
        // what they need
        let resolve = md.resolve.as_mut().unwrap();
        let nodes: BTreeMap<&str, &cm::Node> = resolve.nodes.iter().map(|n| (n.id.repr.as_str(), n)).collect();
        let mut keep: BTreeSet<String> = BTreeSet::new();
        let mut todo: Vec<String> = md.workspace_members.iter().map(|m| m.repr.clone()).collect();
        todo.extend(resolve.root.as_ref().map(|r| r.repr.clone()));
        while let Some(id) = todo.pop() {
            if let Some(n) = nodes.get(id.as_str()) {
                if keep.insert(id) {
                    todo.extend(n.deps.iter().map(|d| d.pkg.repr.clone()));
                }
            }
        }
        resolve.nodes.retain(|n| keep.contains(&n.id.repr));
        md.packages.retain(|p| keep.contains(&p.id.repr));
        let conf = configure(&self.conf, &md);
        (md, conf)
    }
}

/// The configuration for such a document
pub fn configure(c: &ConfG, md: &cm::Metadata) -> Conf {
    let n = md.packages.len();
    let member = |b: u8| {
        let m = &md.workspace_members[b as usize / 2 % md.workspace_members.len()];
        let p = md.packages.iter().find(|p| p.id == *m).unwrap();
        if b % 2 == 0 { p.manifest_path.to_string() } else { p.manifest_path.parent().unwrap().to_string() }
    };
    Conf {
        targets: conf::decode_targets(&c.targets),
        ignore: conf::decode_ignore(&c.ignore),
        exclude: c
            .exclude
            .iter()
            .map(|(i, f)| {
                let p = &md.packages[(*i as usize * 256 + *f as usize) % n];
                match f % 2 {
                    0 => p.name.clone(),
                    _ => format!("{}:{}", p.name, p.version),
                }
            })
            .collect(),
        workspace: c.workspace,
        include: c.include.iter().map(|b| member(*b)).collect(),
        ..Default::default()
    }
}

/// Worlds in which some packages have hundreds of features
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct WideG {
    world: WC,
    /// in which package, how many, named like what, where they are turned on,
    /// and what they turn on
    wide: Vec<(u8, u16, u8, u8, u8)>,
}

pub fn wide() -> BoxedStrategy<WideG> {
    let count = prop_oneof![1 => 30u16..140, 2 => 240u16..300, 1 => 300u16..700];
    let wide = proptest::collection::vec((any::<u8>(), count, any::<u8>(), any::<u8>(), any::<u8>()), 1..3);
    (prop_oneof![mixed(), dense(), pruned()], wide).prop_map(|(world, wide)| WideG { world, wide }).boxed()
}

impl Input for WideG {
    fn load(&self) -> (cm::Metadata, Conf) {
        let (mut w, conf) = self.world.decode();
        for (i, count, prefix, at, also) in &self.wide {
            let n = w.pkgs.len();
            // one with features of its own
            let Some(i) = (0..n).map(|k| (k + *i as usize) % n).find(|i| !w.pkgs[*i].features.is_empty()) else { continue };
            let prefix = ["0-", "m_", "zz"][*prefix as usize % 3];
            let new: Vec<String> = (0..*count).map(|k| format!("{prefix}{k:03}")).collect();
            let pick = |b: &u8| new[*b as usize * 3 % new.len()].clone();
            let p = &mut w.pkgs[i];
            let old: Vec<String> = p.features.keys().cloned().collect();
            // all of them, or a chain, behind a feature
            let first = old[*at as usize % old.len()].clone();
            let implicit = |l: &Vec<String>, n: &str| l.len() == 1 && l[0].strip_prefix("dep:") == Some(n);
            let chain = at & 64 != 0;
            for (k, f) in new.iter().enumerate() {
                let mut l = Vec::new();
                if chain && k + 1 < new.len() {
                    l.push(new[k + 1].clone());
                }
                if k == *also as usize * 3 % new.len() {
                    l.push(old[*also as usize % old.len()].clone());
                }
                p.features.entry(f.clone()).or_insert(l);
            }
            let l = p.features.get_mut(&first).unwrap();
            if !implicit(l, &first) {
                if chain {
                    l.push(new[0].clone());
                } else {
                    let some = if at & 128 != 0 { new.len() } else { new.len() / 2 };
                    l.extend(new[..some].iter().cloned());
                }
            }
            // dependents that ask for some of them
            for q in &mut w.pkgs {
                for (k, d) in q.decls.iter_mut().enumerate() {
                    if d.to == i && (*also as usize + k) % 2 == 0 {
                        let f = pick(&also.wrapping_add(k as u8));
                        if !d.features.contains(&f) {
                            d.features.push(f);
                        }
                    }
                }
                // through a feature
                let Some(d) = q.decls.iter().find(|d| d.to == i && d.kind != world::Kind::Dev) else { continue };
                if q.decls.iter().any(|o| o.toml == d.toml && o.to != i) {
                    continue;
                }
                let entry = format!("{}{}/{}", d.toml, if d.optional && also & 64 != 0 { "?" } else { "" }, pick(at));
                if let Some((_, l)) = q.features.iter_mut().find(|(n, l)| !implicit(l, n)) {
                    if !l.contains(&entry) {
                        l.push(entry);
                    }
                }
            }
        }
        w.resolve_again();
        (w.metadata(), conf)
    }
}
