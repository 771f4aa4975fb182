//! C11 and C12: package ids, in either format

use crate::runner::*;
use crate::world::{form_encode, url_path};
use krates::{Kid, PackageId};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::hash::BuildHasher;

/// A package id taken apart
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct IdG {
    pub name: String,
    pub version: String,
    pub src: SrcG,
    pub opaque: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum SrcG {
    /// kind and url of a registry
    Registry(String, String),
    /// url up to the last segment, last segment (`None`: the name), kind and
    /// value of the reference, commit
    Git(String, Option<String>, Option<(String, String)>, String),
    /// directory up to the last segment, last segment (`None`: the name)
    Path(String, Option<String>),
}

pub struct Parts {
    pub id: String,
    pub name: String,
    pub version: String,
    pub source: String,
    /// what the id is shown as
    pub shown: String,
}

impl IdG {
    pub fn parts(&self) -> Parts {
        let (n, v) = (&self.name, &self.version);
        let (source, encoded, last, commit) = match &self.src {
            SrcG::Registry(kind, url) => {
                let s = format!("{kind}+{url}");
                (s.clone(), s, None, None)
            }
            SrcG::Git(base, last, reference, commit) => {
                let last = url_path(&last.clone().unwrap_or_else(|| n.clone()));
                let url = format!("git+{base}/{last}");
                let (s, e) = match reference {
                    None => (url.clone(), url),
                    Some((k, r)) => (format!("{url}?{k}={r}"), format!("{url}?{k}={}", form_encode(r))),
                };
                (s, e, Some(last), Some(commit))
            }
            SrcG::Path(base, last) => {
                let last = last.clone().unwrap_or_else(|| n.clone());
                // a name is shown unless it is the last segment of the
                // directory, as cargo compares it
                let s = format!("path+file://{}/{}", url_path(base), url_path(&last));
                (s.clone(), s, Some(url_path(&last)), None)
            }
        };
        let with = |src: &str| {
            if last.as_ref() == Some(n) { format!("{src}#{v}") } else { format!("{src}#{n}@{v}") }
        };
        let (id, shown) = if self.opaque {
            let id = match commit {
                Some(c) => format!("{n} {v} ({source}#{c})"),
                None => format!("{n} {v} ({source})"),
            };
            (id.clone(), id)
        } else {
            (with(&encoded), with(&source))
        };
        Parts {
            id,
            name: n.clone(),
            version: v.clone(),
            source,
            shown,
        }
    }
}

fn name_g() -> BoxedStrategy<String> {
    prop_oneof![
        6 => prop::sample::select(vec!["a", "ab", "foo", "foo-bar", "foo_bar", "Foo", "x1", "md-5", "windows-sys"]).prop_map(str::to_owned),
        3 => "[a-zA-Z_][a-zA-Z0-9_-]{0,12}",
        1 => prop::sample::select(vec!["é", "größe", "数据", "ñandú-x"]).prop_map(str::to_owned),
    ]
    .boxed()
}

pub fn version_g() -> BoxedStrategy<String> {
    let pre = prop_oneof![
        4 => Just(String::new()),
        1 => "-(alpha|beta|rc|0|x-y)(\\.(0|1|12|z|a-b)){0,2}",
    ];
    let build = prop_oneof![
        4 => Just(String::new()),
        1 => "\\+(zstd|001|git-abc|2020-01-01|1)(\\.[0-9a-z-]{1,5}){0,2}",
    ];
    (prop_oneof![3 => 0u64..3, 1 => 0u64..2000], prop_oneof![3 => 0u64..3, 1 => 0u64..2000], prop_oneof![3 => 0u64..3, 1 => any::<u64>()], pre, build)
        .prop_map(|(a, b, c, p, m)| format!("{a}.{b}.{c}{p}{m}"))
        .boxed()
}

fn reference_g() -> BoxedStrategy<Option<(String, String)>> {
    let value = prop_oneof![
        2 => prop::sample::select(vec!["main", "dev", "v1.0.0", "3900e8a", "feature/thing", "a/b/c"]).prop_map(str::to_owned),
        // whatever git allows in the name of a reference
        2 => "[a-zA-Z0-9/@#%&=+!$'(),;<>\"{}|._-]{1,14}",
        1 => "(%[0-9A-F]{2}|%2F|%|a|/|é|数|\\+|%25){1,6}",
    ];
    let kind = prop::sample::select(vec!["branch", "tag", "rev"]).prop_map(str::to_owned);
    prop_oneof![1 => Just(None), 3 => (kind, value).prop_map(Some)].boxed()
}

fn segment_g() -> BoxedStrategy<Option<String>> {
    prop_oneof![
        3 => Just(None),
        2 => prop::sample::select(vec!["mono", "foo", "repo.git", "a", "crates"]).prop_map(|s| Some(s.to_owned())),
    ]
    .boxed()
}

fn src_g() -> BoxedStrategy<SrcG> {
    let registry = prop::sample::select(vec![
        ("registry", "https://github.com/rust-lang/crates.io-index"),
        ("registry", "https://alt.example.com/git/index"),
        ("registry", "https://alt.example.com/git/index.git"),
        ("registry", "ssh://git@example.com:2222/index"),
        ("sparse", "https://sparse.example.com/index/"),
        ("sparse", "https://user@sparse.example.com/~x/index/"),
        ("registry", "file:///srv/my%20index"),
        ("registry", "https://alt.example.com/index?t=a%2Fb"),
        ("sparse", "https://sparse.example.com/i%20x/?t=%41"),
        ("local-registry", "file:///srv/local"),
        ("directory", "file:///srv/vendor"),
    ])
    .prop_map(|(k, u)| SrcG::Registry(k.to_owned(), u.to_owned()));
    let git = (
        prop::sample::select(vec![
            "https://git.example.com/org",
            "https://git.example.com",
            "ssh://git@git.example.com/org",
            "ssh://git@git.example.com:7999/~u",
            "file:///srv/git",
            "https://git.example.com/a/b/c",
        ]),
        segment_g(),
        reference_g(),
        prop::sample::select(vec!["0123456789abcdef0123456789abcdef01234567", "00ff00aa00ff00aa00ff00aa00ff00aa00ff00aa"]),
    )
        .prop_map(|(b, l, r, c)| SrcG::Git(b.to_owned(), l, r, c.to_owned()));
    let path = (
        prop_oneof![
            3 => prop::sample::select(vec!["", "/home/me/ws", "/home/me/my code", "/C:/Users/Me/ws", "/C:/Program Files/x", "/srv/a@b", "/srv/a#b", "/srv/50%/x", "/srv/{a}", "/srv/dé"]).prop_map(str::to_owned),
            1 => "(/[a-zA-Z0-9 @#%+=,.()!$&';~?-]{1,8}){1,4}",
        ],
        prop_oneof![
            2 => segment_g(),
            1 => "[a-zA-Z0-9 @#%+=,()!$&';~?-]{1,8}".prop_map(Some),
        ],
    )
        .prop_map(|(b, l)| SrcG::Path(b, l));
    prop_oneof![2 => registry, 3 => git, 2 => path].boxed()
}

pub fn id_g() -> BoxedStrategy<IdG> {
    (name_g(), version_g(), src_g(), any::<bool>())
        .prop_map(|(name, version, src, opaque)| IdG { name, version, src, opaque })
        .boxed()
}

fn kid(id: &str) -> Result<Kid, String> {
    guard(|| Kid::from(PackageId { repr: id.to_owned() })).map_err(|e| format!("{id}: {e}"))
}

fn c11(g: &IdG, cx: &mut Cx) -> R {
    let p = g.parts();
    let k = kid(&p.id)?;
    let got = (k.name(), k.version(), k.source());
    let want = (p.name.as_str(), p.version.as_str(), p.source.as_str());
    if got != want {
        return Err(format!("the id {:?} stands for {want:?}, but is taken for {got:?}", p.id));
    }
    if k.repr != p.shown || k.to_string() != p.shown {
        return Err(format!("the id {:?} is kept as {:?} and shown as {k}, not as {:?}", p.id, k.repr, p.shown));
    }
    if k.version().parse::<semver::Version>().is_err() {
        return Err(format!("the version of {:?} is no version: {:?}", p.id, k.version()));
    }
    let c = k.clone();
    if (c.name(), c.version(), c.source()) != got {
        return Err(format!("a copy of the id {:?} differs", p.id));
    }
    // the other format stands for the same
    let o = IdG { opaque: !g.opaque, ..g.clone() }.parts();
    let ko = kid(&o.id)?;
    if (ko.name(), ko.version(), ko.source()) != want {
        return Err(format!("the ids {:?} and {:?} stand for the same, the second is taken for {:?}", p.id, o.id, (ko.name(), ko.version(), ko.source())));
    }
    cx.label(match &g.src {
        SrcG::Registry(..) => "registry",
        SrcG::Git(_, _, None, _) => "git, default branch",
        SrcG::Git(..) => "git, reference",
        SrcG::Path(..) => "path",
    });
    cx.label(if g.opaque { "opaque" } else { "stable" });
    let stable = if g.opaque { &o } else { &p };
    cx.label_if(stable.id != stable.shown, "encoded reference");
    cx.label_if(!stable.id.rsplit('#').next().unwrap().contains('@'), "name left out");
    cx.label_if(g.version.contains(['-', '+']), "pre-release or build metadata");
    cx.nontrivial_if(stable.id != stable.shown || !matches!(g.src, SrcG::Registry(..)));
    cx.sample(|| json!({"id": p.id, "name": p.name, "version": p.version, "source": p.source}));
    Ok(())
}

/// Ids with a good chance to be equal in some of their parts
#[derive(Clone, Debug, Serialize, Deserialize)]
struct IdsG {
    base: Vec<IdG>,
    /// (which id, part taken from which other)
    mix: Vec<(u8, u8, u8, bool)>,
}

fn ids_g() -> BoxedStrategy<IdsG> {
    (vec(id_g(), 2..4), vec((any::<u8>(), any::<u8>(), any::<u8>(), any::<bool>()), 2..8))
        .prop_map(|(base, mix)| IdsG { base, mix })
        .boxed()
}

fn c12(g: &IdsG, cx: &mut Cx) -> R {
    let n = g.base.len();
    let mut ids: Vec<IdG> = g.base.clone();
    for (a, b, c, o) in &g.mix {
        ids.push(IdG {
            name: g.base[*a as usize % n].name.clone(),
            version: g.base[*b as usize % n].version.clone(),
            src: g.base[*c as usize % n].src.clone(),
            opaque: *o,
        });
    }
    let hasher = std::hash::BuildHasherDefault::<std::collections::hash_map::DefaultHasher>::default();
    let all: Vec<(Parts, Kid)> = ids
        .iter()
        .map(|i| {
            let p = i.parts();
            let k = kid(&p.id)?;
            Ok((p, k))
        })
        .collect::<Result<_, String>>()?;
    fn key(p: &Parts) -> (&str, &str, &str) {
        (&p.name, &p.version, &p.source)
    }
    let mut equal = 0;
    for (p, a) in &all {
        for (q, b) in &all {
            let want = key(p).cmp(&key(q));
            let at = || format!("{:?} and {:?}", p.id, q.id);
            if a.cmp(b) != want || a.partial_cmp(b) != Some(want) {
                return Err(format!("{} compare as {:?}, their parts as {want:?}", at(), a.cmp(b)));
            }
            if (a == b) != want.is_eq() || (a != b) == want.is_eq() {
                return Err(format!("{} are {}equal, their parts compare as {want:?}", at(), if a == b { "" } else { "not " }));
            }
            if (a < b) != want.is_lt() || (a <= b) != want.is_le() || (a > b) != want.is_gt() || (a >= b) != want.is_ge() {
                return Err(format!("the operators disagree on {}", at()));
            }
            if want.is_eq() {
                if hasher.hash_one(a) != hasher.hash_one(b) {
                    return Err(format!("{} are equal, their hashes differ", at()));
                }
                equal += usize::from(p.id != q.id);
            }
        }
    }
    // the same in collections
    let keys: BTreeSet<_> = all.iter().map(|(p, _)| key(p)).collect();
    let tree: BTreeSet<&Kid> = all.iter().map(|(_, k)| k).collect();
    let table: HashSet<&Kid> = all.iter().map(|(_, k)| k).collect();
    if tree.len() != keys.len() || table.len() != keys.len() {
        return Err(format!("{} different packages make a tree of {} and a table of {}", keys.len(), tree.len(), table.len()));
    }
    let order: Vec<_> = tree.iter().map(|k| (k.name(), k.version(), k.source())).collect();
    if order != keys.iter().copied().collect::<Vec<_>>() {
        return Err(format!("the order of {order:?} is not that of the parts"));
    }
    let mut map: HashMap<&Kid, usize> = HashMap::new();
    let mut sorted: BTreeMap<&Kid, usize> = BTreeMap::new();
    for (_, k) in &all {
        *map.entry(k).or_default() += 1;
        *sorted.entry(k).or_default() += 1;
    }
    for (p, k) in &all {
        let want = all.iter().filter(|(q, _)| key(q) == key(p)).count();
        if map[k] != want || sorted[k] != want {
            return Err(format!("{:?} is there {want} times, the maps have {} and {}", p.id, map[k], sorted[k]));
        }
    }
    cx.label_if(equal > 0, "equal, written differently");
    cx.label_if(keys.len() < all.len(), "duplicates");
    cx.nontrivial_if(equal > 0 && keys.len() > 2);
    cx.sample(|| json!(all.iter().map(|(p, _)| p.id.clone()).collect::<Vec<_>>()));
    Ok(())
}

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C11",
            rule: "A name (also not ASCII), a version (also with pre-release and build metadata) and a source (registries of five kinds, git with and without a reference of every character git allows, directories with characters that are encoded and with drive letters) are written as an id in both of cargo's formats; the parsed id must have just these parts and be shown as documented. Non-trivial: the source is no registry, or the reference is encoded.",
            assumptions: &["cargo writes ids as cargo 1.99 and the formats documented for `cargo pkgid` do; the git reference is form-encoded in the stable format and verbatim in the opaque one"],
            parts: vec![part("ids", 1_600_000, 160_000_000, id_g, c11)],
        },
        Check {
            id: "C12",
            rule: "Four to eleven ids whose names, versions and sources are mixed from two or three, in both formats; every pair is compared by all operators and by hash against the tuple of parts, and all of them collected in trees and tables. Non-trivial: two ids that are equal but written differently, among more than two packages.",
            assumptions: &["ids as in C11"],
            parts: vec![part("ids", 500_000, 50_000_000, ids_g, c12)],
        },
    ]
}
