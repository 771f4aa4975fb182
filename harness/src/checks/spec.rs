//! C15: package specs

use super::ids::version_g;
use crate::runner::*;
use krates::{Error, PkgSpec, cm};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::json;

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct SpecG {
    /// scheme, host and directories, last segment
    url: Option<(Option<String>, String, String)>,
    /// left out: the last segment of the url
    name: Option<String>,
    version: Option<String>,
    at: bool,
}

fn name_g() -> BoxedStrategy<String> {
    prop_oneof![
        2 => prop::sample::select(vec!["foo", "foo-bar", "foo_bar", "x", "Serde", "a1", "windows-x86_64"]).prop_map(str::to_owned),
        1 => "[a-zA-Z][a-zA-Z0-9_-]{0,10}",
    ]
    .boxed()
}

fn url_g() -> BoxedStrategy<(Option<String>, String, String)> {
    (
        prop_oneof![
            4 => prop::sample::select(vec!["https", "http", "ssh", "git", "file"]).prop_map(|s| Some(s.to_owned())),
            1 => Just(None),
        ],
        prop_oneof![
            3 => prop::sample::select(vec!["github.com/rust-lang", "crates.io", "git@github.com/a/b/c", "user:pw@host.example:8080/~x", "host/x.y", "h/c++"]).prop_map(str::to_owned),
            1 => "[a-z][a-z0-9.-]{0,6}(/[a-zA-Z0-9._~+-]{1,5}){0,3}",
        ],
        name_g(),
    )
        .boxed()
}

fn spec_g() -> BoxedStrategy<SpecG> {
    (
        prop::option::weighted(0.7, url_g()),
        prop::option::weighted(0.6, prop_oneof![4 => name_g(), 1 => "[_0-9][a-z0-9_-]{0,5}"]),
        prop::option::weighted(0.6, version_g()),
        any::<bool>(),
        prop::option::weighted(0.3, prop::sample::select(vec!["repo.git", "x.y", "crates.io-index", "a+b"])),
    )
        .prop_map(|(mut url, name, version, at, odd)| {
            let name = if url.is_none() { Some(name.unwrap_or_else(|| "foo".to_owned())) } else { name };
            // a name that is no name at first sight needs its version
            let name = match name {
                Some(n) if url.is_some() && version.is_none() && !n.starts_with(|c: char| c.is_alphabetic()) => Some(format!("n{n}")),
                n => n,
            };
            if let (Some(u), Some(o), Some(_)) = (&mut url, odd, &name) {
                u.2 = o.to_owned();
            }
            SpecG { url, name, version, at }
        })
        .boxed()
}

impl SpecG {
    fn text(&self) -> String {
        let mut s = String::new();
        if let Some((scheme, host, last)) = &self.url {
            if let Some(sch) = scheme {
                s += sch;
                s += "://";
            }
            s += host;
            s.push('/');
            s += last;
            if self.name.is_some() || self.version.is_some() {
                s.push('#');
            }
        }
        if let Some(n) = &self.name {
            s += n;
            if self.version.is_some() {
                s.push(if self.at { '@' } else { ':' });
            }
        }
        if let Some(v) = &self.version {
            s += v;
        }
        s
    }
    fn parts(&self) -> (Option<String>, String, Option<semver::Version>) {
        let url = self
            .url
            .as_ref()
            .map(|(s, h, l)| format!("{}://{h}/{l}", s.as_deref().unwrap_or("cargo")));
        let name = self.name.clone().unwrap_or_else(|| self.url.as_ref().unwrap().2.clone());
        (url, name, self.version.as_ref().map(|v| v.parse().unwrap()))
    }
}

fn parse(t: &str) -> Result<Result<PkgSpec, Error>, String> {
    guard(|| t.parse::<PkgSpec>()).map_err(|m| format!("parsing {t:?}: {m}"))
}

fn well_formed(g: &SpecG, cx: &mut Cx) -> R {
    let t = g.text();
    let s = match parse(&t)? {
        Ok(s) => s,
        Err(e) => return Err(format!("{t:?} is a package spec, parsing it fails: {e}")),
    };
    let want = g.parts();
    let got = (s.url.clone(), s.name.clone(), s.version.clone());
    if got != want {
        return Err(format!("{t:?} means {want:?}, it is taken for {got:?}"));
    }
    cx.label(match (&g.url, &g.name, &g.version) {
        (None, _, None) => "name",
        (None, _, Some(_)) => "name and version",
        (Some(_), None, None) => "url",
        (Some(_), None, Some(_)) => "url#version",
        (Some(_), Some(_), None) => "url#name",
        (Some(_), Some(_), Some(_)) => "url#name@version",
    });
    cx.label_if(g.url.as_ref().is_some_and(|u| u.0.is_none()), "no scheme");
    cx.nontrivial_if(g.url.is_some() || g.version.is_some());
    cx.sample(|| json!({"spec": t, "url": want.0, "name": want.1, "version": want.2.map(|v| v.to_string())}));
    Ok(())
}

/// A well formed spec with something done to it that makes it wrong
#[derive(Clone, Debug, Serialize, Deserialize)]
struct BrokenG {
    spec: SpecG,
    how: u8,
    which: u8,
}

fn broken_g() -> BoxedStrategy<BrokenG> {
    (spec_g(), any::<u8>(), any::<u8>()).prop_map(|(spec, how, which)| BrokenG { spec, how, which }).boxed()
}

fn broken(g: &BrokenG, cx: &mut Cx) -> R {
    let mut s = g.spec.clone();
    let w = g.which as usize;
    let (t, what) = match (g.how % 10, s.url.is_some()) {
        // a character that is in no name
        (0, _) => {
            let c = ['.', '!', ' ', 'é', '$', '*', '\\', '"', '(', '+', ',', '?', '\u{0}', '\t', '数'][w % 15];
            let n = s.name.get_or_insert_with(|| "foo".to_owned());
            let at = 1 + w / 15 % n.len();
            n.insert(at, c);
            (s.text(), "a character no name has")
        }
        // what is no version
        (1, _) => {
            let v = ["x", "1.x.0", "^1.0.0", "01.0.0", "1.0.0-", "1.0.0+", "1.0.0 ", "v1.0.0", "1.0.0.0", "-1.0.0", "99999999999999999999.0.0", "1.0.0-01"][w % 12];
            if s.url.is_some() && w / 12 % 2 == 0 {
                // here it would be a name if it began with a letter
                let v = if v.starts_with(|c: char| c.is_alphabetic()) { "1..0" } else { v };
                s.name = None;
                s.version = Some(v.to_owned());
            } else {
                s.name.get_or_insert_with(|| "foo".to_owned());
                s.version = Some(v.to_owned());
            }
            (s.text(), "no version")
        }
        (2, _) => {
            s.name.get_or_insert_with(|| "foo".to_owned());
            s.version = None;
            (s.text() + [":", "@"][w % 2], "ends where a version should be")
        }
        (3, true) => {
            s.name = None;
            s.version = None;
            (s.text() + "#", "ends where a name should be")
        }
        (4, true) => {
            let u = s.url.as_mut().unwrap();
            u.2 = String::new();
            (s.text(), "a url that ends with a slash")
        }
        (5, true) => {
            let (scheme, host, _) = s.url.clone().unwrap();
            let host = host.split('/').next().unwrap().to_owned();
            let mut t = format!("{}://{host}", scheme.unwrap_or_else(|| "https".to_owned()));
            s.url = None;
            if w % 3 > 0 {
                s.name.get_or_insert_with(|| "foo".to_owned());
                t += "#";
                t += &s.text();
            }
            (t, "a url without a path")
        }
        // what follows the first # is a name and a version, and neither has a #
        (6, true) => {
            let n = s.name.get_or_insert_with(|| "foo".to_owned()).clone();
            match w % 4 {
                0 => s.name = Some(format!("{n}#{n}")),
                1 => s.name = Some(format!("#{n}")),
                2 => s.url.as_mut().unwrap().2 += "#x",
                _ => s.name = Some(format!("{n}#")),
            }
            (s.text(), "a second #")
        }
        // a name ends at its first : or @
        (7, _) => {
            let n = s.name.get_or_insert_with(|| "foo".to_owned()).clone();
            s.version.get_or_insert_with(|| "1.2.3".to_owned());
            let sep = [":", "@"][w / 4 % 2];
            match w % 4 {
                0 => s.name = Some(format!("{n}{sep}{n}")),
                1 => s.name = Some(format!("{n}{sep}")),
                2 => s.version = s.version.map(|v| format!("{v}{sep}{v}")),
                _ => s.version = s.version.map(|v| format!("{v}{sep}")),
            }
            (s.text(), "a second : or @")
        }
        (8, true) => {
            s.name = Some(String::new());
            s.version.get_or_insert_with(|| "1.2.3".to_owned());
            (s.text() + "#", "ends with #")
        }
        // a name has at least one character
        (9, _) => {
            s.name = Some(String::new());
            if s.url.is_some() || w % 3 > 0 {
                s.version.get_or_insert_with(|| "1.2.3".to_owned());
            } else {
                s.version = None;
            }
            (s.text(), "an empty name")
        }
        _ => return Ok(()),
    };
    match parse(&t)? {
        Err(Error::InvalidPkgSpec(why)) if !why.is_empty() => {}
        Err(e) => return Err(format!("{t:?} ({what}) is refused with the wrong error: {e:?}")),
        Ok(s) => return Err(format!("{t:?} is no package spec ({what}), it is taken for {s:?}")),
    }
    cx.label(what);
    cx.nontrivial_if(true);
    cx.sample(|| json!({"spec": t, "wrong": what}));
    Ok(())
}

/// Any text: no panic, and what is accepted is a spec
fn any_text(t: &String, cx: &mut Cx) -> R {
    match parse(t)? {
        Err(Error::InvalidPkgSpec(_)) => cx.label("refused"),
        Err(e) => return Err(format!("{t:?} is refused with {e:?}")),
        Ok(s) => {
            cx.label("accepted");
            if s.name.is_empty() {
                return Err(format!("{t:?} is accepted with an empty name"));
            }
            if let Some(c) = s.name.chars().find(|c| !(c.is_ascii_alphanumeric() || *c == '-' || *c == '_')) {
                return Err(format!("{t:?} is accepted with {c:?} in the name {:?}", s.name));
            }
            if s.url.is_some() != t.contains('/') {
                return Err(format!("{t:?} has the url {:?}", s.url));
            }
            // written out again it is the same
            let mut again = s.url.as_ref().map(|u| format!("{u}#")).unwrap_or_default();
            again += &s.name;
            if let Some(v) = &s.version {
                again += &format!("@{v}");
            } else if s.url.is_some() && !s.name.starts_with(|c: char| c.is_alphabetic()) {
                return Ok(());
            }
            match parse(&again)? {
                Ok(r) if (&r.url, &r.name, &r.version) == (&s.url, &s.name, &s.version) => {}
                r => return Err(format!("{t:?} means {s:?}, but {again:?} means {r:?}")),
            }
            cx.nontrivial_if(s.url.is_some() || s.version.is_some());
            cx.sample(|| json!({"text": t}));
        }
    }
    Ok(())
}

fn text_g() -> BoxedStrategy<String> {
    let tokens = prop::sample::select(vec![
        "foo", "a-b", "_", "0", "1.2.3", "1.0.0-a+b", ":", "@", "#", "/", "//", "://", "https://", "?", "+", ".", "%20", "é", " ", "x.git", "crates.io", "-",
    ]);
    prop_oneof![
        4 => vec(tokens, 0..8).prop_map(|v| v.concat()),
        1 => "\\PC{0,20}",
        1 => "[a-z]{1,4}[:@][0-9]\\.[0-9]\\.[0-9]",
    ]
    .boxed()
}

/// A package and a spec
#[derive(Clone, Debug, Serialize, Deserialize)]
struct MatchG {
    name: String,
    version: String,
    /// kind of source, url
    source: Option<(u8, String)>,
    query: u8,
    commit: bool,
    spec: [u8; 3],
    other: (String, String, String),
}

fn urls() -> BoxedStrategy<String> {
    url_g().prop_map(|(s, h, l)| format!("{}://{h}/{l}", s.unwrap_or_else(|| "https".to_owned()))).boxed()
}

fn match_g() -> BoxedStrategy<MatchG> {
    (
        name_g(),
        version_g(),
        prop::option::weighted(0.85, (any::<u8>(), urls())),
        any::<u8>(),
        any::<bool>(),
        any::<[u8; 3]>(),
        (name_g(), version_g(), urls()),
    )
        .prop_map(|(name, version, source, query, commit, spec, other)| MatchG { name, version, source, query, commit, spec, other })
        .boxed()
}

/// Where local packages are
const DIR: &str = "/kv-none/a b/ws-X/é+%/foo";

fn matches(g: &MatchG, cx: &mut Cx) -> R {
    let repr = g.source.as_ref().map(|(k, u)| match k % 4 {
        0 => format!("registry+{u}"),
        1 => format!("sparse+{u}"),
        _ => {
            let q = ["", "", "?branch=main", "?tag=a/b", "?rev=3900e8a", "?branch=a#b?c+d", "?branch=x%2Fy"][g.query as usize % 7];
            format!("git+{u}{q}#{}", "0123abcd".repeat(5))
        }
    });
    let pick = |s: u8, own: &str, other: &str| match s % 5 {
        0 | 1 => Some(own.to_owned()),
        2 => None,
        3 => Some(other.to_owned()),
        _ => {
            // something near
            Some(match s / 5 % 14 {
                0 => format!("{own}x"),
                1 => own[..own.char_indices().nth_back(0).map_or(0, |c| c.0)].to_owned(),
                2 => own.replace('-', "_"),
                3 => own.replace('_', "-"),
                4 => format!("{own}.git"),
                5 => own.trim_end_matches(".git").to_owned(),
                6 => format!("{own}/"),
                7 => own.replacen("https:", "http:", 1),
                8 => own.replacen("://", "://www.", 1),
                9 => own.rsplit('/').next().unwrap().to_owned(),
                10 => own.rsplit_once('/').map_or(String::new(), |o| o.0.to_owned()),
                11 => own.to_lowercase(),
                12 => own.split_once("://").map_or(own, |o| o.1).to_owned(),
                _ => own.to_uppercase(),
            })
        }
    };
    let name = pick(g.spec[0], &g.name, &g.other.0).unwrap_or_else(|| g.name.clone());
    // a version with other build metadata is neither here nor there
    let own: semver::Version = g.version.parse().unwrap();
    let version = match g.spec[1] % 4 {
        0 | 1 => Some(own.clone()),
        2 => None,
        _ => {
            let v: semver::Version = g.other.1.parse().unwrap();
            if (v.major, v.minor, v.patch, &v.pre) == (own.major, own.minor, own.patch, &own.pre) { Some(own.clone()) } else { Some(v) }
        }
    };
    // the source of a local package is its directory
    let own_url = g.source.as_ref().map_or(format!("file://{}", crate::world::url_path(DIR)), |s| s.1.clone());
    let url = pick(g.spec[2], &own_url, &g.other.2);
    // a slash at the end of a directory means nothing
    let url = url.filter(|u| g.source.is_some() || *u != format!("{own_url}/"));
    let want = name == g.name
        && version.as_ref().is_none_or(|v| *v == own)
        && url.as_ref().is_none_or(|u| *u == own_url);
    let pkg: cm::Package = serde_json::from_value(json!({
        "name": g.name, "version": g.version, "id": "x", "source": repr, "dependencies": [], "targets": [],
        "features": {}, "manifest_path": format!("{DIR}/Cargo.toml"),
    }))
    .map_err(|e| format!("harness: {e}"))?;
    let spec = PkgSpec { name, version, url };
    let got = guard(|| spec.matches(&pkg))?;
    if got != want {
        return Err(format!("{spec:?} {} the package {} {} of {repr:?}", if got { "matches" } else { "does not match" }, g.name, g.version));
    }
    cx.label(if want { "matches" } else { "does not match" });
    cx.label_if(want && spec.url.is_some(), "matches by url");
    cx.label_if(want && spec.url.is_some() && repr.is_none(), "matches by directory");
    cx.label_if(want && spec.url.is_some() && spec.version.is_some() && repr.as_ref().is_some_and(|r| r.contains('?')), "matches git with a reference");
    cx.nontrivial_if(spec.url.is_some() || spec.version.is_some());
    cx.sample(|| json!({"spec": format!("{spec:?}"), "package": [g.name, g.version], "source": repr, "matches": want}));
    Ok(())
}

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C15",
        rule: "Specs put together from an optional url, name and version in each documented form must parse into just these; specs spoilt in one of six ways must be refused; any text must be refused or mean the same when written out again; a spec matches a package of generated name, version and source when each part given is equal. Non-trivial: a url or a version is given, or the spec is spoilt.",
        assumptions: &[
            "partial versions, urls with a query and versions that differ in build metadata only are left alone: neither the documentation nor cargo settles them for krates",
        ],
        parts: vec![
            part("well-formed", 800_000, 60_000_000, spec_g, well_formed),
            part("broken", 800_000, 60_000_000, broken_g, broken),
            part("any text", 800_000, 60_000_000, text_g, any_text),
            part("matching", 800_000, 60_000_000, match_g, matches),
        ],
    }]
}
