//! Kinds, targets, exclusions, roots: each filter against the document with
//! the same things taken out of it, and against the model.

use super::*;
use crate::cfgs::{self, Filter, Key};
use crate::core::{self, Built, K, build};
use crate::model::{Conf, Model, ScopeM, SpecM};
use crate::obs::{EdgeO, Obs, Ref, observe};
use crate::runner::*;
use crate::world::Kind;
use krates::cm;
use proptest::collection::vec;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};

use super::build::ASSUME;

pub fn look(k: &K) -> Result<Obs, String> {
    observe(k, &|p: &cm::Package| p.id.repr.clone())
}

/// `None`: no root left
pub fn graph(md: cm::Metadata, conf: &Conf) -> Result<Option<(Box<K>, Obs)>, String> {
    Ok(match build(md, conf)? {
        Built::Graph { k, .. } => {
            let o = look(&k)?;
            Some((k, o))
        }
        Built::NoRoots => None,
    })
}

type Links = BTreeMap<(String, String, Kind, Option<String>), BTreeSet<String>>;

fn toggled(o: &Obs) -> BTreeSet<(String, String, String)> {
    o.edges
        .iter()
        .filter_map(|(s, d, e)| match (s, d, e) {
            (Ref::Crate(s), Ref::Feat(d, f), EdgeO::Feature) => Some((s.clone(), d.clone(), f.clone())),
            _ => None,
        })
        .collect()
}

fn sdiff<T: Ord + std::fmt::Debug>(a: &BTreeSet<T>, b: &BTreeSet<T>) -> String {
    format!(
        "only in the first: {:?}; only in the second: {:?}",
        a.difference(b).take(5).collect::<Vec<_>>(),
        b.difference(a).take(5).collect::<Vec<_>>()
    )
}

/// Crates, links and features of two graphs agree
pub fn same(what: &str, a: &Option<(Box<K>, Obs)>, b: &Option<(Box<K>, Obs)>) -> R {
    let (a, b) = match (a, b) {
        (None, None) => return Ok(()),
        (Some((_, a)), Some((_, b))) => (a, b),
        (None, Some(_)) => return Err(format!("{what}: no root left, where there should be")),
        (Some(_), None) => return Err(format!("{what}: a graph, where no root should be left")),
    };
    let (ca, cb) = (a.crate_set(), b.crate_set());
    if ca != cb {
        return Err(format!("{what}: crates differ: {}", sdiff(&ca, &cb)));
    }
    let (la, lb): (Links, Links) = (a.links(), b.links());
    if la != lb {
        return Err(format!("{what}: links differ: {}", sdiff(&la.into_iter().collect(), &lb.into_iter().collect())));
    }
    let (ta, tb) = (toggled(a), toggled(b));
    if ta != tb {
        return Err(format!("{what}: features turned on differ: {}", sdiff(&ta, &tb)));
    }
    if a.features != b.features {
        return Err(format!(
            "{what}: enabled features differ: {}",
            sdiff(&a.features.clone().into_iter().collect(), &b.features.clone().into_iter().collect())
        ));
    }
    Ok(())
}

/// The document without the uses of a dependency that `keep` turns down, as if
/// cargo had never listed them
fn without(md: &cm::Metadata, keep: impl Fn(&cm::PackageId, &cm::NodeDep, &cm::DepKindInfo) -> bool) -> (cm::Metadata, usize) {
    let mut md = md.clone();
    let mut gone = 0;
    for n in &mut md.resolve.as_mut().unwrap().nodes {
        let id = n.id.clone();
        for d in &mut n.deps {
            let kinds = std::mem::take(&mut d.dep_kinds);
            let before = kinds.len();
            let kept: Vec<_> = kinds.into_iter().filter(|k| keep(&id, d, k)).collect();
            gone += before - kept.len();
            d.dep_kinds = kept;
        }
        n.deps.retain(|d| !d.dep_kinds.is_empty());
        n.dependencies = n.deps.iter().map(|d| d.pkg.clone()).collect();
    }
    (md, gone)
}

fn model_agrees(md: &cm::Metadata, conf: &Conf, cx: &mut Cx) -> R {
    if let Some(c) = core::prepare(md.clone(), conf, cx)? {
        c.classify(cx);
        c.crates()?;
        c.links()?;
        c.features()?;
    }
    Ok(())
}

// ---- C06

fn c06<I: Input>(g: &I, cx: &mut Cx) -> R {
    let (md, conf) = g.load();
    let a = graph(md.clone(), &conf)?;
    let members: BTreeSet<_> = md.workspace_members.iter().cloned().collect();
    let (cut, gone) = without(&md, |id, _, k| !conf.ignored(Kind::of(k.kind), members.contains(id)));
    let plain = Conf { ignore: vec![], ..conf.clone() };
    let b = graph(cut, &plain)?;
    same(&format!("ignoring {:?} and never having had those", conf.ignore), &a, &b)?;
    if let Some((_, o)) = &a {
        for (s, d, k, c) in o.links().keys() {
            if conf.ignored(*k, members.iter().any(|m| m.repr == *s)) {
                return Err(format!("the ignored link {s} -> {d} ({k:?}, {c:?}) is in the graph"));
            }
        }
    }
    // the scopes add up, and order and repetition mean nothing
    let mut split = conf.clone();
    split.ignore = conf
        .ignore
        .iter()
        .rev()
        .flat_map(|(k, s)| match s {
            ScopeM::All => vec![(*k, ScopeM::NonWorkspace), (*k, ScopeM::Workspace), (*k, ScopeM::NonWorkspace)],
            _ => vec![(*k, *s), (*k, *s)],
        })
        .collect();
    same(&format!("ignoring {:?} and {:?}", conf.ignore, split.ignore), &a, &graph(md.clone(), &split)?)?;
    model_agrees(&md, &conf, cx)?;
    let unfiltered = graph(md, &plain)?;
    let lost = unfiltered.as_ref().map_or(0, |u| u.1.crates.len()) - a.as_ref().map_or(0, |u| u.1.crates.len());
    cx.label_if(lost > 0, "crates removed");
    for (k, s) in &conf.ignore {
        cx.label(match (k, s) {
            (Kind::Normal, _) => "ignores normal",
            (Kind::Dev, _) => "ignores dev",
            (Kind::Build, _) => "ignores build",
        });
        cx.label(match s {
            ScopeM::All => "scope all",
            ScopeM::Workspace => "scope workspace",
            ScopeM::NonWorkspace => "scope non-workspace",
        });
    }
    cx.nontrivial_if(gone > 0 && unfiltered.map(|u| u.1.links()) != a.map(|a| a.1.links()));
    cx.sample(|| json!({"ignore": format!("{:?}", conf.ignore), "links taken away": gone, "crates gone": lost}));
    Ok(())
}

fn kinds_conf() -> BoxedStrategy<ConfG> {
    (
        vec((any::<u8>(), any::<u8>()), 1..4),
        prop_oneof![2 => Just(ConfG::default()).boxed(), 1 => conf::conf_g()],
    )
        .prop_map(|(ignore, c)| ConfG { ignore, ..c })
        .boxed()
}

fn kinds() -> BoxedStrategy<WC> {
    // more build and dev dependencies than usual
    let w = (world::world_g(), any::<bool>())
        .prop_map(|(mut w, more)| {
            if more {
                for (i, p) in w.pkgs.iter_mut().enumerate() {
                    for (j, d) in p.deps.iter_mut().enumerate() {
                        d.kind = d.kind.wrapping_add(((i * 7 + j * 3) % 8) as u8) % 8;
                        if d.kind < 3 {
                            d.kind += 5 * (j as u8 % 2);
                        }
                    }
                }
            }
            w
        })
        .boxed();
    with_conf(w, kinds_conf())
}

// ---- C07

fn c07<I: Input>(g: &I, cx: &mut Cx) -> R {
    let (md, conf) = g.load();
    let a = graph(md.clone(), &conf)?;
    let filters: Vec<Filter<'_>> = conf.targets.iter().map(|(t, f)| Filter { triple: t, features: f }).collect();
    let (cut, gone) = without(&md, |_, _, k| k.target.as_deref().is_none_or(|t| Key::parse(t).allowed(&filters)));
    let plain = Conf { targets: vec![], ..conf.clone() };
    let b = graph(cut, &plain)?;
    same(&format!("filtering for {:?} and never having had those", conf.targets), &a, &b)?;
    // order and repetition of targets mean nothing, nor the number of calls
    if !conf.targets.is_empty() {
        let mut again = conf.clone();
        again.targets.reverse();
        again.targets.extend(conf.targets.clone());
        same("reordered and repeated targets", &a, &graph(md.clone(), &again)?)?;
        let mut builder = plain.builder();
        for (t, f) in &conf.targets {
            builder.include_targets([(t.clone(), f.clone())]);
        }
        let r = guard(|| builder.build_with_metadata::<cm::Package, krates::Edge, _>(md.clone(), krates::NoneFilter))?;
        let c = match r {
            Ok(k) => {
                let o = look(&k)?;
                Some((Box::new(k), o))
            }
            Err(krates::Error::NoRootKrates) => None,
            Err(e) => return Err(format!("building failed: {e}")),
        };
        same("one call per target", &a, &c)?;
        // whatever one of the targets alone brings in is there
        if let Some((_, all)) = &a {
            for t in &conf.targets {
                let one = Conf { targets: vec![t.clone()], ..conf.clone() };
                if let Some((_, o)) = graph(md.clone(), &one)? {
                    if !o.crate_set().is_subset(&all.crate_set()) {
                        return Err(format!("{t:?} alone brings in crates that it does not together with others"));
                    }
                }
            }
        }
        for (t, _) in &conf.targets {
            let shown = krates::Target::from(t.as_str()).to_string();
            if shown != *t {
                return Err(format!("the target {t} shows as {shown}"));
            }
        }
    }
    model_agrees(&md, &conf, cx)?;
    let all = graph(md, &plain)?;
    cx.label_if(conf.targets.is_empty(), "no target given");
    cx.label_if(conf.targets.iter().any(|t| cfgs::UNKNOWN.contains(&t.0.as_str())), "unknown target");
    cx.label_if(!conf.targets.is_empty() && gone > 0, "links taken away");
    let (la, lall) = (a.map(|a| a.1.links()).unwrap_or_default(), all.map(|a| a.1.links()).unwrap_or_default());
    cx.label_if(la.keys().any(|k| k.3.as_ref().is_some_and(|c| c.starts_with("cfg("))) && !conf.targets.is_empty(), "cfg kept");
    cx.nontrivial_if(la.keys().any(|k| k.3.is_some()) && la != lall);
    cx.sample(|| {
        json!({"targets": format!("{:?}", conf.targets),
            "conditions kept": la.keys().filter_map(|k| k.3.clone()).collect::<BTreeSet<_>>(),
            "conditions gone": lall.keys().filter(|k| !la.contains_key(*k)).filter_map(|k| k.3.clone()).collect::<BTreeSet<_>>()})
    });
    Ok(())
}

fn cfg_world() -> BoxedStrategy<WorldG> {
    (world::world_g(), vec(vec(any::<u8>(), 1..12), 1..8))
        .prop_map(|(mut w, t)| {
            let mut i = 0;
            for p in &mut w.pkgs {
                for d in &mut p.deps {
                    d.target = t[i % t.len()].clone();
                    i += 1;
                    if i % 5 == 4 {
                        d.target.clear();
                    }
                }
            }
            w
        })
        .boxed()
}

fn some_targets() -> BoxedStrategy<ConfG> {
    (
        vec((any::<u8>(), vec(any::<u8>(), 0..3)), 1..5),
        prop_oneof![3 => Just(ConfG::default()).boxed(), 1 => conf::conf_g()],
    )
        .prop_map(|(targets, c)| ConfG { targets, ..c })
        .boxed()
}

fn targets() -> BoxedStrategy<WC> {
    with_conf(
        prop_oneof![cfg_world(), world::world_g()].boxed(),
        prop_oneof![6 => some_targets(), 1 => Just(ConfG::default())].boxed(),
    )
}

// ---- C08

fn c08<I: Input>(g: &I, cx: &mut Cx) -> R {
    let (md, conf) = g.load();
    let model = Model::new(&md);
    let specs: Vec<SpecM> = conf.exclude.iter().map(|s| SpecM::parse(s)).collect();
    let excluded: BTreeSet<String> =
        model.pkgs.iter().filter(|p| specs.iter().any(|s| s.matches(p))).map(|p| p.id.clone()).collect();
    let mut filtered = Vec::new();
    let r = guard(|| {
        conf.builder()
            .build_with_metadata::<cm::Package, krates::Edge, _>(md.clone(), |p: cm::Package| filtered.push(p.id.repr))
    })?;
    let a = match r {
        Ok(k) => {
            let o = look(&k)?;
            Some((Box::new(k), o))
        }
        Err(krates::Error::NoRootKrates) => None,
        Err(e) => return Err(format!("building failed: {e}")),
    };
    if let Some((_, o)) = &a {
        for x in &excluded {
            if o.features.contains_key(x) {
                return Err(format!("the excluded {x} is in the graph"));
            }
            if !filtered.contains(x) {
                return Err(format!("the excluded {x} is not reported as filtered"));
            }
        }
    }
    let roots: BTreeSet<String> = model.roots(&conf).iter().map(|i| model.pkgs[*i].id.clone()).collect();
    // the same without the spec, if nothing ever led to what is excluded
    let plain = Conf { exclude: vec![], ..conf.clone() };
    if roots.is_disjoint(&excluded) {
        let (cut, _) = without(&md, |_, d, _| !excluded.contains(&d.pkg.repr));
        same(&format!("excluding {:?} and never having had those", conf.exclude), &a, &graph(cut, &plain)?)?;
    } else {
        cx.label("root excluded");
    }
    if roots.is_subset(&excluded) && a.is_some() {
        return Err("a graph was built though every root is excluded".to_owned());
    }
    // one call or many
    let mut b = plain.builder();
    for s in conf.exclude.iter().rev() {
        b.exclude([s.parse().unwrap()]);
    }
    let r = guard(|| b.build_with_metadata::<cm::Package, krates::Edge, _>(md.clone(), krates::NoneFilter))?;
    let b = match r {
        Ok(k) => {
            let o = look(&k)?;
            Some((Box::new(k), o))
        }
        Err(_) => None,
    };
    same("one call per exclusion", &a, &b)?;
    model_agrees(&md, &conf, cx)?;
    let all = graph(md, &plain)?;
    let lost = all.as_ref().map_or(0, |u| u.1.crates.len()) - a.as_ref().map_or(0, |u| u.1.crates.len());
    let hit = all.as_ref().map_or(0, |u| u.1.crates.iter().filter(|c| excluded.contains(*c)).count());
    cx.label_if(lost > hit, "crates only reachable through an excluded one");
    cx.label_if(hit > 1, "several crates excluded");
    cx.label_if(excluded.is_empty(), "matches nothing");
    cx.nontrivial_if(hit > 0 && a.is_some());
    cx.sample(|| json!({"exclude": conf.exclude, "excluded": excluded, "gone with them": lost as i64 - hit as i64}));
    Ok(())
}

fn excludes_conf() -> BoxedStrategy<ConfG> {
    (
        vec((any::<u8>(), any::<u8>()), 1..4),
        prop_oneof![2 => Just(ConfG::default()).boxed(), 1 => conf::conf_g()],
    )
        .prop_map(|(exclude, c)| ConfG { exclude, ..c })
        .boxed()
}

fn excludes() -> BoxedStrategy<WC> {
    with_conf(prop_oneof![world::world_g(), world::world_sized(4..=10, 4, 3)].boxed(), excludes_conf())
}

// ---- C09

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RootG {
    world: WorldG,
    include: Vec<(u8, u8)>,
    workspace: bool,
    /// the document names its files through a symbolic link
    linked: bool,
    other: ConfG,
}

fn more_members(mut w: WorldG) -> WorldG {
    for (i, p) in w.pkgs.iter_mut().enumerate() {
        if i % 3 != 2 {
            p.src = 5;
        }
    }
    w
}

fn root_g() -> BoxedStrategy<RootG> {
    (
        (world::world_g(), any::<bool>()).prop_map(|(w, m)| if m { more_members(w) } else { w }),
        prop_oneof![2 => Just(vec![]), 8 => vec((any::<u8>(), any::<u8>()), 1..4), 1 => any::<u8>().prop_map(|h| vec![(14, h)])],
        any::<bool>(),
        any::<bool>(),
        prop_oneof![3 => Just(ConfG::default()).boxed(), 1 => conf::conf_g()],
    )
        .prop_map(|(world, include, workspace, linked, other)| RootG {
            world,
            include,
            workspace,
            linked,
            other: ConfG { include: vec![], ..other },
        })
        .boxed()
}

/// One directory tree per case: the workspace for real, so that paths can be
/// written in many ways
fn c09_real(g: &RootG, cx: &mut Cx) -> R {
    use std::fs;
    use std::sync::atomic::{AtomicU64, Ordering};
    static N: AtomicU64 = AtomicU64::new(0);
    let base = cx.scratch.join(format!("roots-{}", N.fetch_add(1, Ordering::Relaxed)));
    let r = c09_in(g, cx, &base);
    let _ = fs::remove_dir_all(&base);
    r
}

fn c09_in(g: &RootG, cx: &mut Cx, base: &std::path::Path) -> R {
    use std::fs;
    let w = World::decode(&g.world);
    let io = |e: std::io::Error| -> String { panic!("harness: {e}") };
    let real = base.join("real");
    fs::create_dir_all(real.join("ws")).map_err(io)?;
    std::os::unix::fs::symlink(&real, base.join("link")).map_err(io)?;
    let real_s = real.to_str().unwrap().to_owned();
    let shown = if g.linked { base.join("link") } else { real.clone() };
    let shown_s = shown.to_str().unwrap().to_owned();
    // the workspace of the document moves to where it really is
    let md: cm::Metadata = {
        let text = serde_json::to_string(&w.metadata()).unwrap();
        serde_json::from_str(&text.replace("/kv-none/ws", &format!("{shown_s}/ws"))).map_err(|e| format!("harness: {e}"))?
    };
    let ws_dir = |p: &str| p.replacen("/kv-none", &real_s, 1);
    let members: Vec<usize> = (0..w.pkgs.len()).filter(|i| w.pkgs[*i].member).collect();
    for m in &members {
        let mp = ws_dir(&w.pkgs[*m].manifest_path());
        fs::create_dir_all(std::path::Path::new(&mp).parent().unwrap()).map_err(io)?;
        fs::write(&mp, "").map_err(io)?;
    }
    let virt = w.root.is_none();
    if virt {
        fs::write(real.join("ws/Cargo.toml"), "").map_err(io)?;
    }
    // what each path stands for: a member, the workspace, or nothing
    #[derive(PartialEq, Debug)]
    enum Is {
        Member(usize),
        Workspace,
        Nothing,
    }
    let mut paths = Vec::new();
    let mut is = Vec::new();
    for (n, (who, how)) in g.include.iter().enumerate() {
        let (dir, what) = match who % 16 {
            14 if virt => (format!("{real_s}/ws"), Is::Workspace),
            15 => {
                let d = format!("{real_s}/ws/not-a-member");
                fs::create_dir_all(&d).map_err(io)?;
                fs::write(format!("{d}/Cargo.toml"), "").map_err(io)?;
                (d, Is::Nothing)
            }
            k => {
                let m = members[k as usize % members.len()];
                let mp = ws_dir(&w.pkgs[m].manifest_path());
                (mp.strip_suffix("/Cargo.toml").unwrap().to_owned(), Is::Member(m))
            }
        };
        let leaf = dir.rsplit('/').next().unwrap().to_owned();
        let linked = dir.replacen(&real_s, base.join("link").to_str().unwrap(), 1);
        let depth = std::env::current_dir().map_err(io)?.components().count();
        let path = match how % 12 {
            0 => dir,
            1 => format!("{dir}/Cargo.toml"),
            2 => format!("{dir}/"),
            3 => format!("{dir}/."),
            4 => format!("{dir}/../{leaf}"),
            5 => format!("{dir}/../{leaf}/Cargo.toml"),
            6 => linked,
            7 => format!("{linked}/Cargo.toml"),
            8 => format!("{}{}", "../".repeat(depth + 2), &dir[1..]),
            9 => format!("{}{}/Cargo.toml", "../".repeat(depth + 2), &dir[1..]),
            10 => {
                let l = base.join(format!("l{n}"));
                std::os::unix::fs::symlink(&dir, &l).map_err(io)?;
                l.to_str().unwrap().to_owned()
            }
            _ => {
                let l = base.join(format!("l{n}"));
                std::os::unix::fs::symlink(&dir, &l).map_err(io)?;
                format!("{}/Cargo.toml", l.to_str().unwrap())
            }
        };
        paths.push(path);
        is.push(what);
    }
    // a single path to the workspace that is a package as well says nothing clear
    if let ([Is::Member(m)], Some(r)) = (&is[..], w.root) {
        if *m == r {
            return Ok(());
        }
    }
    let roots: BTreeSet<usize> = if is.is_empty() {
        match w.root {
            Some(r) if !g.workspace => BTreeSet::from([r]),
            _ => members.iter().copied().collect(),
        }
    } else if is == [Is::Workspace] {
        members.iter().copied().collect()
    } else {
        is.iter().filter_map(|i| if let Is::Member(m) = i { Some(*m) } else { None }).collect()
    };
    let conf = Conf {
        include: paths.clone(),
        workspace: g.workspace,
        ..conf::decode(&g.other, &w)
    };
    let model = Model::new(&md);
    let root_ids: BTreeSet<usize> = roots
        .iter()
        .map(|m| {
            let mp = w.pkgs[*m].manifest_path().replacen("/kv-none", &shown_s, 1);
            (0..model.pkgs.len()).find(|i| model.pkgs[*i].manifest == mp).expect("harness: member")
        })
        .collect();
    let exp = model.expect_with_roots(&conf, root_ids.clone(), true);
    let alt = model.expect_with_roots(&conf, root_ids, false);
    let got = graph(md, &conf)?;
    let ids = |e: &crate::model::Expected| -> BTreeSet<String> { e.crates.iter().map(|i| model.pkgs[*i].id.clone()).collect() };
    let got_ids = got.as_ref().map(|(_, o)| o.crate_set()).unwrap_or_default();
    if got_ids != ids(&exp) {
        if got_ids == ids(&alt) {
            return cx.finding(core::KF_STRONG, || format!("with roots {paths:?}"));
        }
        return Err(format!(
            "with the paths {paths:?} (workspace: {}, root: {:?}, linked: {}): {}",
            g.workspace,
            w.root.map(|r| w.pkgs[r].id(w.opaque)),
            g.linked,
            sdiff(&ids(&exp), &got_ids)
        ));
    }
    // a root has the features cargo resolved for it
    if let Some((_, o)) = &got {
        for r in &exp.roots {
            let p = &model.pkgs[*r];
            if let Some(f) = o.features.get(&p.id) {
                if *f != p.resolved {
                    return Err(format!("the root {} has the features {f:?} instead of {:?}", p.id, p.resolved));
                }
            }
        }
    }
    cx.label_if(got.is_none(), "no root left");
    cx.label_if(is == [Is::Workspace], "path of the workspace");
    cx.label_if(is.contains(&Is::Nothing), "path of no member");
    cx.label_if(g.linked, "document with symbolic links");
    cx.label_if(w.root.is_some(), "root package");
    cx.label_if(!is.is_empty() && roots.len() > 1, "several roots by path");
    cx.nontrivial_if(members.len() >= 2 && roots.len() < members.len() && got.is_some());
    cx.sample(|| json!({"members": members.len(), "paths": paths, "workspace": g.workspace, "graph": got_ids}));
    Ok(())
}

fn c09_other(g: &WC, cx: &mut Cx) -> R {
    // the paths of the document do not exist here
    let (w, conf) = g.decode();
    let md = w.metadata();
    let Some(c) = core::prepare(md, &conf, cx)? else {
        cx.label("no root left");
        return Ok(());
    };
    c.crates()?;
    let members = c.model.pkgs.iter().filter(|p| p.member).count();
    for r in &c.exp.roots {
        let p = &c.model.pkgs[*r];
        if let Some(f) = c.obs.features.get(&p.id) {
            if *f != p.resolved {
                return Err(format!("the root {} has the features {f:?} instead of {:?}", p.id, p.resolved));
            }
        }
    }
    cx.label_if(conf.workspace, "workspace(true)");
    cx.label_if(c.model.root.is_some(), "root package");
    cx.label_if(!conf.include.is_empty(), "paths");
    cx.nontrivial_if(members >= 2 && c.exp.roots.len() < members);
    cx.sample(|| json!({"members": members, "roots": c.exp.roots.iter().map(|r| c.model.pkgs[*r].id.clone()).collect::<Vec<_>>(), "configuration": format!("{conf:?}")}));
    Ok(())
}

fn rooted() -> BoxedStrategy<WC> {
    let conf = (any::<bool>(), prop_oneof![Just(vec![]), vec(any::<u8>(), 1..4)], prop_oneof![2 => Just(ConfG::default()).boxed(), 1 => conf::conf_g()])
        .prop_map(|(workspace, include, c)| ConfG { workspace, include, ..c })
        .boxed();
    with_conf((world::world_g(), any::<bool>()).prop_map(|(w, m)| if m { more_members(w) } else { w }).boxed(), conf)
}

// ---- C14

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct MoreG {
    wc: WC,
    more: ConfG,
    order: Vec<u8>,
}

fn more_g() -> BoxedStrategy<MoreG> {
    (mixed(), conf::conf_g(), vec(any::<u8>(), 8..12))
        .prop_map(|(wc, more, order)| MoreG { wc, more, order })
        .boxed()
}

/// Everything there is, in order
pub fn dump(k: &K) -> String {
    let mut s = String::new();
    for n in k.graph().raw_nodes() {
        match &n.weight {
            krates::Node::Krate { id, krate, features, dep_mapping } => {
                s += &format!("K {} {} {features:?} {dep_mapping:?}\n", id.repr, krate.id);
            }
            krates::Node::Feature { krate_index, name } => s += &format!("F {} {name}\n", krate_index.index()),
        }
    }
    for e in k.graph().raw_edges() {
        s += &format!("{} -> {} {:?}\n", e.source().index(), e.target().index(), e.weight);
    }
    s
}

fn dumped(b: krates::Builder, md: cm::Metadata) -> Result<String, String> {
    match guard(|| b.build_with_metadata::<cm::Package, krates::Edge, _>(md, krates::NoneFilter))? {
        Ok(k) => Ok(dump(&k)),
        Err(krates::Error::NoRootKrates) => Ok("no roots".to_owned()),
        Err(e) => Err(format!("building failed: {e}")),
    }
}

fn c14(g: &MoreG, cx: &mut Cx) -> R {
    let (w, base) = g.wc.decode();
    let more = conf::decode(&g.more, &w);
    c14_on(w.metadata(), base, more, &g.order, cx)
}

/// A recorded document, and what to restrict further
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RecMoreG {
    rec: recorded::RecG,
    more: ConfG,
    order: Vec<u8>,
}

fn rec_more() -> BoxedStrategy<RecMoreG> {
    (recorded::recorded(), conf::conf_g(), vec(any::<u8>(), 8..12))
        .prop_map(|(rec, more, order)| RecMoreG { rec, more, order })
        .boxed()
}

fn c14_recorded(g: &RecMoreG, cx: &mut Cx) -> R {
    let (md, base) = g.rec.load();
    let more = recorded::configure(&g.more, &md);
    c14_on(md, base, more, &g.order, cx)
}

fn c14_on(md: cm::Metadata, base: Conf, more: Conf, order: &[u8], cx: &mut Cx) -> R {
    let root = md.resolve.as_ref().and_then(|r| r.root.as_ref()).map(|r| {
        md.packages.iter().find(|p| p.id == *r).expect("harness: root").manifest_path.to_string()
    });
    let before = graph(md.clone(), &base)?;

    // --- one restriction after the other only ever takes away
    let mut steps: Vec<(&str, Conf)> = Vec::new();
    let mut c = base.clone();
    for i in &more.ignore {
        c.ignore.push(*i);
        steps.push(("ignoring a kind", c.clone()));
    }
    for e in &more.exclude {
        c.exclude.push(e.clone());
        steps.push(("excluding a package", c.clone()));
    }
    if c.targets.is_empty() && !more.targets.is_empty() {
        c.targets = more.targets.clone();
        steps.push(("filtering for targets", c.clone()));
    }
    if c.targets.len() > 1 {
        c.targets.pop();
        steps.push(("dropping a target", c.clone()));
    }
    if c.include.len() > 1 {
        // one path is not read as the workspace here, see conf::decode
        let mut d = c.clone();
        d.include.truncate(1);
        let full = if d.include[0].ends_with("/Cargo.toml") { d.include[0].clone() } else { format!("{}/Cargo.toml", d.include[0]) };
        if root.as_ref() != Some(&full) && md.workspace_root.join("Cargo.toml") != *full {
            c = d;
            steps.push(("dropping a path", c.clone()));
        }
    }
    let mut last = before;
    let mut changed = false;
    for (what, c) in &steps {
        let now = graph(md.clone(), c)?;
        if let Some((_, n)) = &now {
            let Some((_, l)) = &last else {
                return Err(format!("{what} brought back a root ({c:?})"));
            };
            if !n.crate_set().is_subset(&l.crate_set()) {
                return Err(format!("{what} added crates ({c:?}): {}", sdiff(&n.crate_set(), &l.crate_set())));
            }
            let ll = l.links();
            for (k, f) in n.links() {
                match ll.get(&k) {
                    Some(lf) if f.is_subset(lf) => {}
                    lf => return Err(format!("{what} added the link {k:?} {f:?}, before it was {lf:?} ({c:?})")),
                }
            }
            for (k, f) in &n.features {
                if !f.is_subset(&l.features[k]) {
                    return Err(format!("{what} enabled features of {k}: {}", sdiff(f, &l.features[k])));
                }
            }
            changed |= n.links() != ll;
        }
        last = now;
    }

    // --- the order of the calls does not matter
    let mut calls: Vec<(u8, Box<dyn Fn(&mut krates::Builder)>)> = Vec::new();
    let c2 = c.clone();
    for (t, f) in c2.targets.clone() {
        calls.push((0, Box::new(move |b| { b.include_targets([(t.as_str(), f.clone())]); })));
    }
    for (k, s) in c2.ignore.clone() {
        calls.push((0, Box::new(move |b| {
            b.ignore_kind(k.krates(), match s {
                ScopeM::Workspace => krates::Scope::Workspace,
                ScopeM::NonWorkspace => krates::Scope::NonWorkspace,
                ScopeM::All => krates::Scope::All,
            });
        })));
    }
    for e in c2.exclude.clone() {
        calls.push((0, Box::new(move |b| { b.exclude([e.parse().unwrap()]); })));
    }
    for p in c2.include.clone() {
        calls.push((0, Box::new(move |b| { b.include_workspace_crates([p.clone()]); })));
    }
    let ws = c2.workspace;
    calls.push((0, Box::new(move |b| { b.workspace(ws); })));
    for (i, c) in calls.iter_mut().enumerate() {
        c.0 = order[i % order.len()].wrapping_mul(i as u8 + 1);
    }
    calls.sort_by_key(|c| c.0);
    let mut b = krates::Builder::new();
    // of several calls of `workspace` the last one counts, other calls add
    // up: to make one again, or with nothing, changes nothing
    let odd = |i: usize| order[i % order.len()] & 1 == 1;
    for i in 0..order.len() % 3 {
        b.workspace(odd(i));
    }
    for (i, (_, f)) in calls.iter().enumerate() {
        f(&mut b);
        if odd(i) && i % 3 == 0 {
            b.exclude([]).include_targets::<&str>([]).include_workspace_crates::<&str, _>([""; 0]);
        }
    }
    for (i, e) in c.exclude.iter().enumerate() {
        if odd(i) {
            b.exclude([e.parse().unwrap()]);
        }
    }
    for (i, (t, f)) in c.targets.iter().enumerate() {
        if odd(i + 1) {
            b.include_targets([(t.as_str(), f.clone())]);
        }
    }
    b.workspace(ws);
    let x = dumped(c.builder(), md.clone())?;
    let y = dumped(b, md)?;
    if x != y {
        return Err(format!("the order of the calls changed the graph for {c:?}:\n{x}\n---\n{y}"));
    }
    cx.label_if(steps.len() >= 2, "two or more steps");
    cx.label_if(changed, "links removed");
    cx.nontrivial_if(changed && calls.len() >= 3);
    cx.sample(|| json!({"steps": steps.iter().map(|s| s.0).collect::<Vec<_>>(), "calls": calls.len(), "last configuration": format!("{c:?}")}));
    Ok(())
}

// ---- C28

/// Only in the build with krates' `targets` feature
#[cfg(feature = "targets")]
mod c28 {
    use super::*;

    /// Like `targets`, with more of the triples that rustc does not know
    pub fn custom() -> BoxedStrategy<WC> {
        (targets(), any::<u64>())
            .prop_map(|(mut g, r)| {
                let known = cfgs::TARGETS.len() + cfgs::UNKNOWN.len();
                let all = cfgs::triple_pool().count();
                let swap = |b: &mut u8, i: usize| {
                    if r >> (i % 64) & 1 == 1 {
                        *b = (known + *b as usize % (all - known)) as u8;
                    }
                };
                for (i, t) in g.conf.targets.iter_mut().enumerate() {
                    swap(&mut t.0, i);
                }
                let mut i = 8;
                for p in &mut g.world.pkgs {
                    for d in &mut p.deps {
                        if d.target.len() > 1 && d.target[0] % 8 < 2 {
                            swap(&mut d.target[1], i);
                        }
                        i += 1;
                    }
                }
                g
            })
            .boxed()
    }

    pub fn c28(g: &WC, cx: &mut Cx) -> R {
        let conf = g.decode().1;
        cx.label_if(conf.targets.iter().any(|t| cfgs::CUSTOM.iter().any(|c| c.triple == t.0)), "custom triple");
        for (t, _) in &conf.targets {
            let is = match krates::Target::from(t.as_str()) {
                krates::Target::Builtin(_) => "builtin",
                krates::Target::Triple(_) => "custom",
                krates::Target::Unknown(_) => "unknown",
            };
            let want = if cfgs::TARGETS.iter().any(|k| k.triple == t) {
                "builtin"
            } else if cfgs::UNKNOWN.contains(&t.as_str()) {
                "unknown"
            } else {
                "custom"
            };
            if is != want {
                return Err(format!("{t} is taken for a {is} target, it is a {want} one"));
            }
        }
        c07(g, cx)
    }

    /// Arch, vendor, system and environment put together
    #[derive(Clone, Debug, Serialize, Deserialize)]
    pub struct TripleG(pub u8, pub u8, pub u8, pub Vec<u8>);

    pub fn triple_g() -> BoxedStrategy<TripleG> {
        (any::<u8>(), any::<u8>(), any::<u8>(), vec(any::<u8>(), 1..12)).prop_map(|(a, v, o, k)| TripleG(a, v, o, k)).boxed()
    }

    /// A custom triple is evaluated as its parts say, alone and as a filter
    pub fn parts(g: &TripleG, cx: &mut Cx) -> R {
        let archs = [
            ("x86_64", "x86_64", "64", "little"),
            ("i686", "x86", "32", "little"),
            ("i586", "x86", "32", "little"),
            ("aarch64", "aarch64", "64", "little"),
            ("armv7", "arm", "32", "little"),
            ("thumbv7m", "arm", "32", "little"),
            ("powerpc64", "powerpc64", "64", "big"),
            ("s390x", "s390x", "64", "big"),
            ("wasm32", "wasm32", "32", "little"),
            ("sparc64", "sparc64", "64", "big"),
            ("riscv64gc", "riscv64", "64", "little"),
            ("riscv32imc", "riscv32", "32", "little"),
        ];
        let oss = [
            ("linux-gnu", "linux", "gnu", "unix"),
            ("linux-musl", "linux", "musl", "unix"),
            ("windows-msvc", "windows", "msvc", "windows"),
            ("windows-gnu", "windows", "gnu", "windows"),
            ("freebsd", "freebsd", "", "unix"),
            ("netbsd", "netbsd", "", "unix"),
            ("haiku", "haiku", "", "unix"),
            ("linux-uclibc", "linux", "uclibc", "unix"),
            ("none", "none", "", ""),
        ];
        let vendors = ["acme", "example", "kv1", "pc", "unknown", "fortanix", ""];
        let (a, o, v) = (archs[g.0 as usize % archs.len()], oss[g.2 as usize % oss.len()], vendors[g.1 as usize % vendors.len()]);
        // without a vendor: the same as with an unknown one
        let triple = if v.is_empty() { format!("{}-{}", a.0, o.0) } else { format!("{}-{v}-{}", a.0, o.0) };
        let v = if v.is_empty() { "unknown" } else { v };
        if cfgs::TARGETS.iter().any(|t| t.triple == triple) {
            return Ok(());
        }
        let t = krates::Target::from(&triple);
        // an unknown vendor may be left out
        let short = |t: &str| t.replacen("-unknown-", "-", 1);
        if short(&triple) != short(&t.to_string()) {
            return Err(format!("the target {triple} shows as {t}"));
        }
        let ask = |key: &str| -> Result<bool, String> {
            // a graph of two packages, the one depends on the other under the key
            let md = two(key);
            let mut b = krates::Builder::new();
            b.include_targets([(triple.as_str(), vec![])]);
            let k = guard(|| b.build_with_metadata::<cm::Package, krates::Edge, _>(md, krates::NoneFilter))?.map_err(|e| e.to_string())?;
            Ok(k.krates().count() == 2)
        };
        let Some(key) = cfgs::decode_key(&g.3) else { return Ok(()) };
        let custom = cfgs::Tgt {
            triple: "",
            arch: a.1,
            os: o.1,
            env: o.2,
            family: o.3,
            vendor: v,
            width: a.2,
            endian: a.3,
            abi: "",
            atomics: &[],
        };
        // a name that rustc happens to know may say more than its parts
        if matches!(t, krates::Target::Builtin(_)) {
            cx.label("builtin");
            return Ok(());
        }
        let want = match &key {
            Key::Triple(k) => short(k) == short(&triple),
            Key::Cfg(e) => e.eval_for(Some(&custom), &[]),
        };
        let text = key.text();
        if ask(&text)? != want {
            return Err(format!("for {triple} a dependency under {text} is {}, the other way round is right", if want { "left out" } else { "there" }));
        }
        // the triple itself, and one like it
        if !ask(&triple)? {
            return Err(format!("for {triple} a dependency under this very triple is left out"));
        }
        if ask(&format!("{}-{v}x-{}", a.0, o.0))? {
            return Err(format!("for {triple} a dependency under {}-{v}x-{} is there", a.0, o.0));
        }
        cx.label(if want { "kept" } else { "left out" });
        cx.nontrivial_if(matches!(&key, Key::Cfg(e) if e.predicates() > 0));
        cx.sample(|| json!({"target": triple, "key": text, "kept": want}));
        Ok(())
    }

    fn two(key: &str) -> cm::Metadata {
        let id = |n: &str| format!("path+file:///kv-none/{n}#1.0.0");
        let package = |n: &str, deps: serde_json::Value| {
            json!({"name": n, "version": "1.0.0", "id": id(n), "license": null, "license_file": null, "description": null,
                "source": null, "dependencies": deps, "targets": [{"kind": ["lib"], "crate_types": ["lib"], "name": n,
                "src_path": format!("/kv-none/{n}/src/lib.rs"), "edition": "2021", "doc": true, "doctest": true, "test": true}],
                "features": {}, "manifest_path": format!("/kv-none/{n}/Cargo.toml"), "metadata": null, "publish": null,
                "authors": [], "categories": [], "keywords": [], "readme": null, "repository": null, "homepage": null,
                "documentation": null, "edition": "2021", "links": null, "default_run": null, "rust_version": null})
        };
        let dep = json!({"name": "b", "source": null, "req": "*", "kind": null, "rename": null, "optional": false,
            "uses_default_features": true, "features": [], "target": key, "registry": null, "path": "/kv-none/b"});
        let doc = json!({"packages": [package("a", json!([dep])), package("b", json!([]))], "workspace_members": [id("a")],
            "workspace_default_members": [id("a")],
            "resolve": {"nodes": [
                {"id": id("a"), "dependencies": [id("b")], "deps": [{"name": "b", "pkg": id("b"), "dep_kinds": [{"kind": null, "target": key}]}], "features": []},
                {"id": id("b"), "dependencies": [], "deps": [], "features": []}], "root": id("a")},
            "target_directory": "/kv-none/target", "version": 1, "workspace_root": "/kv-none/a", "metadata": null});
        serde_json::from_value(doc).expect("harness: document")
    }
}

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C06",
            rule: "Worlds with more build and dev dependencies than usual, and one to three ignored (kind, scope) pairs on top of other configuration. The graph must be the one of the document with the ignored uses cut out of the resolution, the same however the scopes are spelled, and the model's. Non-trivial: something was cut out and it changes the links.",
            assumptions: ASSUME,
            parts: vec![
                part("kinds", 70_000, 4_000_000, kinds, c06::<WC>),
                part("recorded", 4_000, 200_000, || recorded::with(kinds_conf()), c06),
            ],
        },
        Check {
            id: "C07",
            rule: "Worlds where most dependencies are under a triple or a generated cfg() expression (nested all/any/not over 20 targets' properties, unknown triples, target features, empty any()), and one to four target filters. The graph must be the one of the document without the uses an independent evaluator turns down, and the model's; order, repetition and number of calls must not matter. Non-trivial: a conditional link is kept and another is gone.",
            assumptions: ASSUME,
            parts: vec![
                part("targets", 70_000, 4_000_000, targets, c07::<WC>),
                part("recorded", 4_000, 200_000, || recorded::with(some_targets()), c07),
            ],
        },
        #[cfg(feature = "targets")]
        Check {
            id: "C28",
            rule: "krates built with its `targets` feature. targets: the check of C07, with a dozen triples among them that rustc does not know (other vendors), as filters and as keys of dependencies. parts: triples put together from an architecture, a vendor, a system and an environment, asked about generated cfg() expressions, about themselves and about a triple one letter off; the answer must be what the parts say. Non-trivial: as for C07; an expression with predicates.",
            assumptions: &[
                "triples are written in full, as target-lexicon shows them; target_abi and target_has_atomic are false for custom triples (cfg-expr says so)",
            ],
            parts: vec![
                part("targets", 50_000, 4_000_000, c28::custom, c28::c28),
                part("parts", 150_000, 6_000_000, c28::triple_g, c28::parts),
            ],
        },
        Check {
            id: "C08",
            rule: "Worlds with one to three package specs (name, name and version in both notations, url forms, ones that match nothing). Matching packages must be filtered, the graph must be the one of the document in which nothing led to them, and the model's. Non-trivial: an exclusion removes a crate and a graph remains.",
            assumptions: ASSUME,
            parts: vec![
                part("excludes", 80_000, 5_000_000, excludes, c08::<WC>),
                part("recorded", 4_000, 200_000, || recorded::with(excludes_conf()), c08),
            ],
        },
        Check {
            id: "C09",
            rule: "Workspaces laid out for real in a scratch directory, with paths written as directories or manifests, with dots, relative, through symbolic links, to the workspace itself or to no member; and documents whose paths do not exist here. The crates must be those the model finds from the roots the generator meant. Non-trivial: at least two members, fewer roots than members, and a graph.",
            assumptions: &[
                "a single path that is both the workspace's and the root package's manifest is not decided by the documentation, and is not generated",
            ],
            parts: vec![
                part("real", 8_000, 300_000, root_g, c09_real),
                part("elsewhere", 100_000, 6_000_000, rooted, c09_other),
            ],
        },
        Check {
            id: "C14",
            rule: "A world, a configuration, and further restrictions added one after the other: no step may add a crate, a link, a requested or an enabled feature; then all the builder calls in a generated order must give an identical graph, node for node. Non-trivial: a step removes links and there are at least three calls.",
            assumptions: ASSUME,
            parts: vec![part("steps", 60_000, 4_000_000, more_g, c14), part("recorded", 3_000, 150_000, rec_more, c14_recorded)],
        },
    ]
}
