//! Generated builder configurations.

use crate::cfgs;
use crate::model::{Conf, ScopeM};
use crate::world::{Kind, Src, World};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize, Default)]
pub struct ConfG {
    pub targets: Vec<(u8, Vec<u8>)>,
    pub ignore: Vec<(u8, u8)>,
    pub exclude: Vec<(u8, u8)>,
    pub workspace: bool,
    pub include: Vec<u8>,
}

pub fn targets_g() -> BoxedStrategy<Vec<(u8, Vec<u8>)>> {
    prop_oneof![
        1 => Just(vec![]),
        1 => vec((any::<u8>(), vec(any::<u8>(), 0..3)), 1..4),
    ]
    .boxed()
}

pub fn conf_g() -> BoxedStrategy<ConfG> {
    (
        targets_g(),
        prop_oneof![3 => Just(vec![]), 2 => vec((any::<u8>(), any::<u8>()), 1..3)],
        prop_oneof![3 => Just(vec![]), 1 => vec((any::<u8>(), any::<u8>()), 1..3)],
        any::<bool>(),
        prop_oneof![4 => Just(vec![]), 1 => vec(any::<u8>(), 1..3)],
    )
        .prop_map(|(targets, ignore, exclude, workspace, include)| ConfG {
            targets,
            ignore,
            exclude,
            workspace,
            include,
        })
        .boxed()
}

pub fn decode_targets(g: &[(u8, Vec<u8>)]) -> Vec<(String, Vec<String>)> {
    let pool: Vec<_> = cfgs::triple_pool().collect();
    g.iter()
        .map(|(t, fs)| {
            (
                pool[*t as usize % pool.len()].to_owned(),
                fs.iter().map(|f| cfgs::FEATS[*f as usize % cfgs::FEATS.len()].to_owned()).collect(),
            )
        })
        .collect()
}

pub fn decode_ignore(g: &[(u8, u8)]) -> Vec<(Kind, ScopeM)> {
    g.iter()
        .map(|(k, s)| {
            (
                Kind::ALL[*k as usize % 3],
                [ScopeM::All, ScopeM::Workspace, ScopeM::NonWorkspace][*s as usize % 3],
            )
        })
        .collect()
}

pub fn spec_for(w: &World, i: u8, form: u8) -> String {
    let reached: Vec<usize> = (0..w.pkgs.len()).filter(|i| w.resolved[*i].is_some()).collect();
    let p = &w.pkgs[reached[i as usize % reached.len()]];
    let url = match &p.src {
        Src::Path { dir } => Some(format!("file://{}", crate::world::url_path(dir))),
        Src::Registry(r) => Some(crate::world::REGISTRIES[*r].split_once('+').unwrap().1.trim_end_matches('/').to_owned()),
        Src::Git { url, .. } => Some(url.clone()),
    };
    // a registry url that ends with a slash cannot be written as a spec
    let url = if p.src == Src::Registry(2) { None } else { url };
    let (n, v) = (&p.name, &p.version);
    match (form % 8, url) {
        (0 | 1, _) => n.clone(),
        (2, _) => format!("{n}:{v}"),
        (3, _) => format!("{n}@{v}"),
        (4, Some(u)) => format!("{u}#{n}"),
        (5, Some(u)) => format!("{u}#{n}@{v}"),
        // matches nothing
        (6, _) => format!("{n}:99.0.0"),
        (7, Some(_)) => format!("https://elsewhere.example.com/x/{n}"),
        _ => format!("{n}:{v}"),
    }
}

pub fn decode(g: &ConfG, w: &World) -> Conf {
    let exclude: Vec<String> = g.exclude.iter().map(|(i, f)| spec_for(w, *i, *f)).collect();
    let members: Vec<usize> = (0..w.pkgs.len()).filter(|i| w.pkgs[*i].member).collect();
    let include = g
        .include
        .iter()
        .map(|b| {
            let m = w.pkgs[members[*b as usize / 4 % members.len()]].manifest_path();
            match b % 4 {
                0 | 1 => m.strip_suffix("/Cargo.toml").unwrap().to_owned(),
                2 => m,
                _ if *b > 200 => "/kv-none/ws/not-a-member".to_owned(),
                _ => m,
            }
        })
        .collect::<Vec<_>>();
    // A single path that is the root package's own manifest is documented only
    // for virtual manifests
    let include = if include.len() == 1
        && w.root.is_some_and(|r| {
            let m = w.pkgs[r].manifest_path();
            include[0] == m || format!("{}/Cargo.toml", include[0]) == m
        }) {
        Vec::new()
    } else {
        include
    };
    Conf {
        targets: decode_targets(&g.targets),
        ignore: decode_ignore(&g.ignore),
        exclude,
        workspace: g.workspace,
        include,
    }
}
