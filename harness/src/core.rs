//! Comparison of a built graph with the reference model, aspect by aspect.

use crate::model::{MPkg, Conf, Expected, Model};
use crate::obs::{EdgeO, Obs, Ref, observe};
use crate::runner::{Cx, R, guard};
use krates::cm;
use std::collections::{BTreeMap, BTreeSet};

pub type K = krates::Krates<cm::Package, krates::Edge>;

/// `n/x` does not enable the own feature `n` of the optional dependency `n`
pub const KF_STRONG: &str = "strong-dependency-feature-own-feature";

pub enum Built {
    Graph { k: Box<K> },
    NoRoots,
}

/// Builds; a panic or an unexpected error is a failure
pub fn build(md: cm::Metadata, conf: &Conf) -> Result<Built, String> {
    let r = guard(|| conf.builder().build_with_metadata::<cm::Package, krates::Edge, _>(md, krates::NoneFilter))
    .map_err(|m| format!("building the graph panicked: {m}"))?;
    match r {
        Ok(k) => Ok(Built::Graph { k: Box::new(k) }),
        Err(krates::Error::NoRootKrates) => Ok(Built::NoRoots),
        Err(e) => Err(format!("building the graph failed: {e}")),
    }
}

pub struct Case {
    pub model: Model,
    pub exp: Expected,
    pub k: Box<K>,
    pub obs: Obs,
}

/// Builds and compares emptiness; `None` when the graph is rightly empty
pub fn prepare(md: cm::Metadata, conf: &Conf, cx: &mut Cx) -> Result<Option<Case>, String> {
    let model = Model::new(&md);
    let mut exp = model.expect(conf);
    match build(md, conf)? {
        Built::NoRoots => {
            if exp.crates.is_empty() {
                Ok(None)
            } else {
                Err(format!(
                    "reported that there are no root crates, but {} crates are reachable",
                    exp.crates.len()
                ))
            }
        }
        Built::Graph { k } => {
            if exp.crates.is_empty() {
                return Err("a graph was built though no root is left".to_owned());
            }
            let obs = observe(&k, &|p: &cm::Package| p.id.repr.clone())?;
            let agrees = |e: &Expected| {
                e.crates.len() == obs.crates.len()
                    && e.features.iter().all(|(i, f)| obs.features.get(&model.pkgs[*i].id) == Some(f))
            };
            if !agrees(&exp) {
                let known = model.expect_with_roots(conf, exp.roots.clone(), false);
                if agrees(&known) {
                    cx.finding(KF_STRONG, || {
                        let at = exp.features.iter().find(|(i, f)| known.features.get(i) != Some(f));
                        match at {
                            Some((i, f)) => format!(
                                "{}: features {f:?} are called for, but {:?} are enabled",
                                model.pkgs[*i].id,
                                known.features.get(i)
                            ),
                            None => String::new(),
                        }
                    })?;
                    exp = known;
                }
            }
            Ok(Some(Case {
                model,
                exp,
                k,
                obs,
            }))
        }
    }
}

fn diff<T: Ord + std::fmt::Debug>(what: &str, want: &BTreeSet<T>, got: &BTreeSet<T>) -> R {
    if want == got {
        return Ok(());
    }
    let missing: Vec<_> = want.difference(got).take(6).collect();
    let extra: Vec<_> = got.difference(want).take(6).collect();
    Err(format!("{what}: missing {missing:#?}, unexpected {extra:#?}"))
}

impl Case {
    pub fn name(&self, i: usize) -> String {
        self.model.pkgs[i].id.clone()
    }

    pub fn crates(&self) -> R {
        let want: BTreeSet<String> = self.exp.crates.iter().map(|i| self.name(*i)).collect();
        diff("crates of the graph", &want, &self.obs.crate_set())
    }

    pub fn features(&self) -> R {
        for (i, want) in &self.exp.features {
            if let Some(got) = self.obs.features.get(&self.name(*i)) {
                diff(&format!("enabled features of {}", self.name(*i)), want, got)?;
            }
        }
        Ok(())
    }

    /// Every link between two crates, with kind, condition and features
    pub fn links(&self) -> R {
        let want: BTreeMap<_, _> = self
            .exp
            .edges
            .iter()
            .map(|e| {
                (
                    (self.name(e.from), self.name(e.to), e.kind, e.cfg.clone()),
                    e.features.clone(),
                )
            })
            .collect();
        let got = self.obs.links();
        diff("links between crates", &want.keys().cloned().collect(), &got.keys().cloned().collect())?;
        for (k, w) in &want {
            diff(&format!("features requested by the link {k:?}"), w, &got[k])?;
        }
        // no link is there twice
        let mut seen = BTreeMap::new();
        for (s, d, e) in &self.obs.edges {
            if matches!(e, EdgeO::Dep(..)) {
                if let Some(()) = seen.insert((s.clone(), d.clone(), e.clone()), ()) {
                    return Err(format!("the link {s:?} -> {d:?} {e:?} is there twice"));
                }
            }
            // shape: what kind of edge joins what kind of node
            let ok = match (s, d, e) {
                (Ref::Crate(_), Ref::Crate(_), EdgeO::Dep(..)) => true,
                (Ref::Crate(_), Ref::Feat(..), EdgeO::DepFeature(..)) => true,
                (Ref::Crate(_), Ref::Feat(..), EdgeO::Feature) => true,
                (Ref::Feat(..), _, EdgeO::Feature) => true,
                _ => false,
            };
            if !ok {
                return Err(format!("the edge {s:?} -> {d:?} cannot be a {e:?}"));
            }
        }
        Ok(())
    }

    /// Features of dependencies that were turned on by features of the dependent
    pub fn toggled(&self) -> R {
        let want: BTreeSet<_> =
            self.exp.toggled.iter().map(|(a, b, f)| (self.name(*a), self.name(*b), f.clone())).collect();
        let got: BTreeSet<_> = self
            .obs
            .edges
            .iter()
            .filter_map(|(s, d, e)| match (s, d, e) {
                (Ref::Crate(s), Ref::Feat(d, f), EdgeO::Feature) => Some((s.clone(), d.clone(), f.clone())),
                _ => None,
            })
            .collect();
        diff("features of dependencies turned on by features", &want, &got)
    }

    pub fn classify(&self, cx: &mut Cx) {
        let e = &self.exp;
        cx.label_if(e.crates.len() >= 4, "crates>=4");
        cx.label_if(e.crates.len() >= 8, "crates>=8");
        cx.label_if(e.optional_active > 0, "optional dependency active");
        cx.label_if(e.optional_inactive > 0, "optional dependency inactive");
        cx.label_if(e.weak_applied > 0, "weak feature applied");
        cx.label_if(e.weak_pending > 0, "weak feature not applied");
        cx.label_if(e.kind_pruned > 0, "kind pruned");
        cx.label_if(e.cfg_pruned > 0, "target pruned");
        cx.label_if(e.excluded_hit > 0, "excluded dependency");
        cx.label_if(!e.toggled.is_empty(), "feature toggles dependency feature");
        cx.label_if(e.crates.len() < self.model.pkgs.len(), "crates filtered out");
        cx.label_if(
            self.exp.edges.iter().any(|x| self.model.pkgs[x.from].decls[x.decl].toml != self.model.pkgs[x.to].name),
            "renamed dependency",
        );
        cx.label_if(
            self.model.pkgs.iter().any(|p| {
                p.deps.iter().enumerate().any(|(i, d)| p.deps[..i].iter().any(|o| o.toml == d.toml))
            }),
            "one name, two versions",
        );
        cx.label_if(self.model.pkgs.iter().any(MPkg::alike), "two dependencies of one extern name");
        cx.label_if(
            self.exp.edges.iter().any(|x| x.kind == crate::world::Kind::Dev && x.to <= x.from),
            "dev dependency cycle candidate",
        );
    }
}
