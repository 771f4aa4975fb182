//! C16, C17 and C29: the metadata document as text and as types

use super::ids::version_g;
use crate::runner::*;
use krates::cm;
use proptest::collection::{btree_map, vec};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::{Map, Value, json};

// ------------------------------------------------------------- the schema

/// What a field is when it is left out
#[derive(Clone, Copy, PartialEq)]
enum D {
    Required,
    /// `null` or left out: nothing
    Null,
    List,
    True,
    E2015,
    Normal,
    Zero,
    /// nothing, and not `null` either
    Gone,
}

enum Ty {
    Leaf,
    /// number of dots made up for
    RustVersion,
    Req,
    Kind,
    Obj(&'static [F]),
    List(&'static [F]),
}

struct F(&'static str, Ty, D);

static METADATA: &[F] = &[
    F("packages", Ty::List(PACKAGE), D::Required),
    F("workspace_members", Ty::Leaf, D::Required),
    F("workspace_default_members", Ty::Leaf, D::Gone),
    F("resolve", Ty::Obj(RESOLVE), D::Null),
    F("workspace_root", Ty::Leaf, D::Required),
    F("target_directory", Ty::Leaf, D::Required),
    F("metadata", Ty::Leaf, D::Null),
    F("version", Ty::Leaf, D::Zero),
];

static RESOLVE: &[F] = &[F("nodes", Ty::List(NODE), D::Required), F("root", Ty::Leaf, D::Required)];

static NODE: &[F] = &[
    F("id", Ty::Leaf, D::Required),
    F("deps", Ty::List(NODE_DEP), D::List),
    F("dependencies", Ty::Leaf, D::Required),
    F("features", Ty::Leaf, D::List),
];

static NODE_DEP: &[F] = &[
    F("name", Ty::Leaf, D::Required),
    F("pkg", Ty::Leaf, D::Required),
    F("dep_kinds", Ty::List(DEP_KIND), D::List),
];

static DEP_KIND: &[F] = &[F("kind", Ty::Kind, D::Normal), F("target", Ty::Leaf, D::Null)];

static DEPENDENCY: &[F] = &[
    F("name", Ty::Leaf, D::Required),
    F("source", Ty::Leaf, D::Null),
    F("req", Ty::Req, D::Required),
    F("kind", Ty::Kind, D::Normal),
    F("optional", Ty::Leaf, D::Required),
    F("uses_default_features", Ty::Leaf, D::Required),
    F("features", Ty::Leaf, D::Required),
    F("target", Ty::Leaf, D::Null),
    F("rename", Ty::Leaf, D::Null),
    F("registry", Ty::Leaf, D::Null),
    F("path", Ty::Leaf, D::Null),
];

static TARGET: &[F] = &[
    F("name", Ty::Leaf, D::Required),
    F("kind", Ty::Leaf, D::Required),
    F("crate_types", Ty::Leaf, D::List),
    F("required-features", Ty::Leaf, D::List),
    F("src_path", Ty::Leaf, D::Required),
    F("edition", Ty::Leaf, D::E2015),
    F("doctest", Ty::Leaf, D::True),
    F("test", Ty::Leaf, D::True),
    F("doc", Ty::Leaf, D::True),
];

static PACKAGE: &[F] = &[
    F("name", Ty::Leaf, D::Required),
    F("version", Ty::Leaf, D::Required),
    F("authors", Ty::Leaf, D::List),
    F("id", Ty::Leaf, D::Required),
    F("source", Ty::Leaf, D::Null),
    F("description", Ty::Leaf, D::Null),
    F("dependencies", Ty::List(DEPENDENCY), D::Required),
    F("license", Ty::Leaf, D::Null),
    F("license_file", Ty::Leaf, D::Null),
    F("targets", Ty::List(TARGET), D::Required),
    F("features", Ty::Leaf, D::Required),
    F("manifest_path", Ty::Leaf, D::Required),
    F("categories", Ty::Leaf, D::List),
    F("keywords", Ty::Leaf, D::List),
    F("readme", Ty::Leaf, D::Null),
    F("repository", Ty::Leaf, D::Null),
    F("homepage", Ty::Leaf, D::Null),
    F("documentation", Ty::Leaf, D::Null),
    F("edition", Ty::Leaf, D::E2015),
    F("metadata", Ty::Leaf, D::Null),
    F("links", Ty::Leaf, D::Null),
    F("publish", Ty::Leaf, D::Null),
    F("default_run", Ty::Leaf, D::Null),
    F("rust_version", Ty::RustVersion, D::Null),
];

/// Every field there, in the one form each value has
fn canon(v: &Value, s: &[F]) -> Value {
    let mut o = Map::new();
    for F(k, ty, d) in s {
        let v = match (v.get(k), d) {
            (Some(x), _) => match (ty, x) {
                (Ty::Kind, Value::Null) => json!("normal"),
                (Ty::Req, x) => json!(x.as_str().unwrap().parse::<semver::VersionReq>().unwrap().to_string()),
                (Ty::RustVersion, Value::String(x)) => {
                    let mut x = x.clone();
                    while x.matches('.').count() < 2 {
                        x += ".0";
                    }
                    json!(x)
                }
                (Ty::Obj(s), x) if x.is_object() => canon(x, s),
                (Ty::List(s), Value::Array(a)) => Value::Array(a.iter().map(|x| canon(x, s)).collect()),
                (_, x) => x.clone(),
            },
            (None, D::Required | D::Null | D::Gone) => Value::Null,
            (None, D::List) => json!([]),
            (None, D::True) => json!(true),
            (None, D::E2015) => json!("2015"),
            (None, D::Normal) => json!("normal"),
            (None, D::Zero) => json!(0),
        };
        o.insert((*k).to_owned(), v);
    }
    Value::Object(o)
}

/// Two documents say the same
pub fn alike(a: &Value, b: &Value) -> Result<(), String> {
    fn go(at: &str, a: &Value, b: &Value) -> Result<(), String> {
        match (a, b) {
            (Value::Object(x), Value::Object(y)) if x.keys().eq(y.keys()) => {
                x.iter().try_for_each(|(k, v)| go(&format!("{at}.{k}"), v, &y[k]))
            }
            (Value::Array(x), Value::Array(y)) if x.len() == y.len() => {
                x.iter().zip(y).enumerate().try_for_each(|(i, (v, w))| go(&format!("{at}[{i}]"), v, w))
            }
            _ if a == b => Ok(()),
            _ => Err(format!("{at}: {a} and {b}")),
        }
    }
    go("", &canon(a, METADATA), &canon(b, METADATA))
}

// ---------------------------------------------------- the types as a document

fn edition(e: cm::Edition) -> &'static str {
    match e {
        cm::Edition::E2015 => "2015",
        cm::Edition::E2018 => "2018",
        cm::Edition::E2021 => "2021",
        cm::Edition::E2024 => "2024",
    }
}

pub fn target_kind(k: cm::TargetKind) -> &'static str {
    use cm::TargetKind::*;
    match k {
        Bench => "bench",
        Bin => "bin",
        CustomBuild => "custom-build",
        CDyLib => "cdylib",
        DyLib => "dylib",
        Example => "example",
        Lib => "lib",
        ProcMacro => "proc-macro",
        RLib => "rlib",
        StaticLib => "staticlib",
        Test => "test",
    }
}

const TARGET_KINDS: [cm::TargetKind; 11] = {
    use cm::TargetKind::*;
    [Bench, Bin, CustomBuild, CDyLib, DyLib, Example, Lib, ProcMacro, RLib, StaticLib, Test]
};

fn crate_type(k: cm::CrateType) -> &'static str {
    use cm::CrateType::*;
    match k {
        Bin => "bin",
        CDyLib => "cdylib",
        DyLib => "dylib",
        Lib => "lib",
        ProcMacro => "proc-macro",
        RLib => "rlib",
        StaticLib => "staticlib",
    }
}

const CRATE_TYPES: [cm::CrateType; 7] = {
    use cm::CrateType::*;
    [Bin, CDyLib, DyLib, Lib, ProcMacro, RLib, StaticLib]
};

fn dep_kind(k: cm::DependencyKind) -> &'static str {
    match k {
        cm::DependencyKind::Normal => "normal",
        cm::DependencyKind::Development => "dev",
        cm::DependencyKind::Build => "build",
    }
}

fn ids(v: &[cm::PackageId]) -> Vec<&str> {
    v.iter().map(|i| i.repr.as_str()).collect()
}

fn package(p: &cm::Package) -> Value {
    let dep = |d: &cm::Dependency| {
        json!({
            "name": d.name, "source": d.source, "req": d.req.to_string(), "kind": dep_kind(d.kind), "optional": d.optional,
            "uses_default_features": d.uses_default_features, "features": d.features, "target": d.target, "rename": d.rename,
            "registry": d.registry, "path": d.path.as_ref().map(|p| p.as_str()),
        })
    };
    let target = |t: &cm::Target| {
        json!({
            "name": t.name, "kind": t.kind.iter().map(|k| target_kind(*k)).collect::<Vec<_>>(),
            "crate_types": t.crate_types.iter().map(|k| crate_type(*k)).collect::<Vec<_>>(),
            "required-features": t.required_features, "src_path": t.src_path.as_str(), "edition": edition(t.edition),
            "doctest": t.doctest, "test": t.test, "doc": t.doc,
        })
    };
    let mut v = json!({
        "name": p.name, "version": p.version.to_string(), "authors": p.authors, "id": p.id.repr, "source": p.source.as_ref().map(|s| &s.repr),
        "description": p.description, "license": p.license, "license_file": p.license_file.as_ref().map(|p| p.as_str()),
        "features": p.features, "manifest_path": p.manifest_path.as_str(), "categories": p.categories, "keywords": p.keywords,
        "readme": p.readme.as_ref().map(|p| p.as_str()), "repository": p.repository, "homepage": p.homepage,
        "documentation": p.documentation, "edition": edition(p.edition), "metadata": p.metadata, "links": p.links,
        "publish": p.publish, "default_run": p.default_run,
    });
    v["rust_version"] = json!(p.rust_version.as_ref().map(|v| v.to_string()));
    v["dependencies"] = p.dependencies.iter().map(dep).collect();
    v["targets"] = p.targets.iter().map(target).collect();
    v
}

pub fn document(m: &cm::Metadata) -> Value {
    let node = |n: &cm::Node| {
        let deps: Vec<_> = n
            .deps
            .iter()
            .map(|d| {
                let kinds: Vec<_> = d.dep_kinds.iter().map(|k| json!({"kind": dep_kind(k.kind), "target": k.target})).collect();
                json!({"name": d.name, "pkg": d.pkg.repr, "dep_kinds": kinds})
            })
            .collect();
        json!({"id": n.id.repr, "deps": deps, "dependencies": ids(&n.dependencies), "features": n.features})
    };
    json!({
        "packages": m.packages.iter().map(package).collect::<Vec<_>>(),
        "workspace_members": ids(&m.workspace_members),
        "workspace_default_members": m.workspace_default_members.0.as_ref().map(|v| ids(v)),
        "resolve": m.resolve.as_ref().map(|r| json!({
            "nodes": r.nodes.iter().map(node).collect::<Vec<_>>(),
            "root": r.root.as_ref().map(|r| &r.repr),
        })),
        "workspace_root": m.workspace_root.as_str(),
        "target_directory": m.target_directory.as_str(),
        "metadata": m.workspace_metadata,
        "version": m.version,
    })
}

// ------------------------------------------------------------- generators

fn text() -> BoxedStrategy<String> {
    prop_oneof![
        4 => "[a-z][a-z0-9_-]{0,6}",
        2 => prop::sample::select(vec!["", " ", "é", "a\"b", "back\\slash", "new\nline", "\u{1F980}", "\u{0}", "\t", "null", "{", "cfg(unix)"]).prop_map(str::to_owned),
        1 => "\\PC{0,8}",
    ]
    .boxed()
}

fn opt<S: Strategy<Value = String> + 'static>(s: S) -> BoxedStrategy<Value> {
    prop_oneof![1 => Just(Value::Null), 2 => s.prop_map(Value::String)].boxed()
}

fn texts() -> BoxedStrategy<Value> {
    vec(text(), 0..3).prop_map(|v| json!(v)).boxed()
}

fn any_json() -> BoxedStrategy<Value> {
    let leaf = prop_oneof![
        Just(Value::Null),
        any::<bool>().prop_map(Value::Bool),
        any::<i64>().prop_map(|n| json!(n)),
        any::<u64>().prop_map(|n| json!(n)),
        (-4000i32..4000).prop_map(|n| json!(f64::from(n) + 0.5)),
        text().prop_map(Value::String),
    ];
    leaf.prop_recursive(3, 12, 4, |inner| {
        prop_oneof![
            vec(inner.clone(), 0..4).prop_map(Value::Array),
            vec((text(), inner), 0..4).prop_map(|v| Value::Object(v.into_iter().collect())),
        ]
    })
    .boxed()
}

fn object(fields: Vec<(&'static str, BoxedStrategy<Value>)>) -> BoxedStrategy<Value> {
    let (keys, vals): (Vec<_>, Vec<_>) = fields.into_iter().unzip();
    vals.prop_map(move |vs| Value::Object(keys.iter().map(|k| (*k).to_owned()).zip(vs).collect())).boxed()
}

fn bool_g() -> BoxedStrategy<Value> {
    any::<bool>().prop_map(Value::Bool).boxed()
}

fn string_g() -> BoxedStrategy<Value> {
    text().prop_map(Value::String).boxed()
}

fn id_g() -> BoxedStrategy<String> {
    prop_oneof![
        4 => (0u8..4).prop_map(|i| format!("registry+https://github.com/rust-lang/crates.io-index#p{i}@1.0.0")),
        2 => (0u8..4).prop_map(|i| format!("path+file:///kv-none/ws#p{i}@0.1.0")),
        1 => text(),
    ]
    .boxed()
}

fn id_v() -> BoxedStrategy<Value> {
    id_g().prop_map(Value::String).boxed()
}

fn id_list() -> BoxedStrategy<Value> {
    vec(id_g(), 0..4).prop_map(|v| json!(v)).boxed()
}

fn path_g() -> BoxedStrategy<String> {
    prop_oneof![
        3 => "(/[a-z0-9 .é_-]{1,6}){1,4}",
        1 => "[a-z.]{1,6}(/[a-z.]{1,6}){0,2}",
        1 => prop::sample::select(vec!["/kv-none/ws/Cargo.toml", "/kv-none/ws", "C:\\Users\\x\\Cargo.toml", "/", "", "Cargo.toml", "../LICENSE", "/abs/LICENSE"]).prop_map(str::to_owned),
    ]
    .boxed()
}

fn path_v() -> BoxedStrategy<Value> {
    path_g().prop_map(Value::String).boxed()
}

fn source_g() -> BoxedStrategy<String> {
    prop_oneof![
        2 => Just("registry+https://github.com/rust-lang/crates.io-index".to_owned()),
        1 => prop::sample::select(vec![
            "registry+https://github.com/rust-lang/crates.io-index/",
            "registry+https://github.com/rust-lang/crates.io-index#x",
            "sparse+https://index.crates.io/",
            "https://github.com/rust-lang/crates.io-index",
            "git+https://github.com/rust-lang/crates.io-index#0123",
            "git+https://x.example.com/y?branch=a%2Fb#00",
        ]).prop_map(str::to_owned),
        1 => text(),
    ]
    .boxed()
}

fn kind_v() -> BoxedStrategy<Value> {
    prop::sample::select(vec![Value::Null, json!("dev"), json!("build"), json!("normal")]).boxed()
}

fn edition_v() -> BoxedStrategy<Value> {
    prop::sample::select(vec!["2015", "2018", "2021", "2024"]).prop_map(|s| json!(s)).boxed()
}

fn req_v() -> BoxedStrategy<Value> {
    prop::sample::select(vec!["*", "^1", "^1.2.3", "=0.1.0", ">=1.0.0, <2.0.0", "~1.2", "1.*", "1", "> 1.2.3-alpha.1", "<=3", "^0.0.1", ">= 1.0 , < 3"])
        .prop_map(|s| json!(s))
        .boxed()
}

fn rust_version_v() -> BoxedStrategy<Value> {
    prop_oneof![
        2 => Just(Value::Null),
        1 => (0u64..3).prop_map(|a| json!(format!("{a}"))),
        1 => (0u64..3, 0u64..90).prop_map(|(a, b)| json!(format!("{a}.{b}"))),
        1 => (0u64..3, 0u64..90, 0u64..3).prop_map(|(a, b, c)| json!(format!("{a}.{b}.{c}"))),
    ]
    .boxed()
}

fn dependency_v() -> BoxedStrategy<Value> {
    object(vec![
        ("name", string_g()),
        ("source", opt(source_g())),
        ("req", req_v()),
        ("kind", kind_v()),
        ("optional", bool_g()),
        ("uses_default_features", bool_g()),
        ("features", texts()),
        ("target", opt(text())),
        ("rename", opt(text())),
        ("registry", opt(text())),
        ("path", opt(path_g())),
    ])
}

fn target_v() -> BoxedStrategy<Value> {
    object(vec![
        ("name", string_g()),
        ("kind", vec(prop::sample::select(TARGET_KINDS.to_vec()), 0..4).prop_map(|v| v.into_iter().map(target_kind).collect::<Vec<_>>().into()).boxed()),
        ("crate_types", vec(prop::sample::select(CRATE_TYPES.to_vec()), 0..3).prop_map(|v| v.into_iter().map(crate_type).collect::<Vec<_>>().into()).boxed()),
        ("required-features", texts()),
        ("src_path", path_v()),
        ("edition", edition_v()),
        ("doctest", bool_g()),
        ("test", bool_g()),
        ("doc", bool_g()),
    ])
}

fn list(s: BoxedStrategy<Value>, n: usize) -> BoxedStrategy<Value> {
    vec(s, 0..n).prop_map(Value::Array).boxed()
}

fn package_v() -> BoxedStrategy<Value> {
    object(vec![
        ("name", string_g()),
        ("version", version_g().prop_map(Value::String).boxed()),
        ("authors", texts()),
        ("id", id_v()),
        ("source", opt(source_g())),
        ("description", opt(text())),
        ("dependencies", list(dependency_v(), 3)),
        ("license", opt(text())),
        ("license_file", opt(path_g())),
        ("targets", list(target_v(), 3)),
        ("features", btree_map(text(), vec(text(), 0..3), 0..3).prop_map(|m| json!(m)).boxed()),
        ("manifest_path", path_v()),
        ("categories", texts()),
        ("keywords", texts()),
        ("readme", opt(path_g())),
        ("repository", opt(text())),
        ("homepage", opt(text())),
        ("documentation", opt(text())),
        ("edition", edition_v()),
        ("metadata", any_json()),
        ("links", opt(text())),
        ("publish", prop_oneof![Just(Value::Null), texts()].boxed()),
        ("default_run", opt(text())),
        ("rust_version", rust_version_v()),
    ])
}

fn metadata_v() -> BoxedStrategy<Value> {
    let dep_kind = object(vec![("kind", kind_v()), ("target", opt(text()))]);
    let node_dep = object(vec![("name", string_g()), ("pkg", id_v()), ("dep_kinds", list(dep_kind, 3))]);
    let node = object(vec![("id", id_v()), ("deps", list(node_dep, 3)), ("dependencies", id_list()), ("features", texts())]);
    let resolve = object(vec![("nodes", list(node, 4)), ("root", opt(id_g()))]);
    object(vec![
        ("packages", list(package_v(), 4)),
        ("workspace_members", id_list()),
        ("workspace_default_members", id_list()),
        ("resolve", prop_oneof![1 => Just(Value::Null), 3 => resolve].boxed()),
        ("workspace_root", path_v()),
        ("target_directory", path_v()),
        ("metadata", any_json()),
        ("version", (0u32..3).prop_map(|n| json!(n)).boxed()),
    ])
}

/// A document and the way it is written
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct DocG {
    doc: Value,
    /// optional fields left out
    drop: Vec<u8>,
    /// fields nobody knows
    extra: Vec<(String, Value)>,
    /// order of the fields, white space, escapes
    style: Vec<u8>,
    spoil: u16,
}

fn doc_g() -> BoxedStrategy<DocG> {
    (
        metadata_v(),
        prop_oneof![1 => Just(vec![]), 2 => vec(any::<u8>(), 1..12)],
        vec(("[a-z]{1,3}_[a-z]{0,3}", any_json()), 0..3),
        prop_oneof![1 => Just(vec![]), 2 => vec(any::<u8>(), 1..16)],
        any::<u16>(),
    )
        .prop_map(|(doc, drop, extra, style, spoil)| DocG { doc, drop, extra, style, spoil })
        .boxed()
}

/// Leaves fields out and adds others; the fields that are left
fn prune(v: &mut Value, s: &[F], g: &DocG, at: &mut usize) {
    let Value::Object(o) = v else { return };
    for F(k, ty, d) in s {
        *at += 1;
        if *d != D::Required && !g.drop.is_empty() && (g.drop[*at % g.drop.len()] as usize + *at / g.drop.len()) % 4 == 0 {
            o.remove(*k);
            continue;
        }
        match (ty, o.get_mut(*k)) {
            (Ty::Obj(s), Some(x)) => prune(x, s, g, at),
            (Ty::List(s), Some(Value::Array(a))) => a.iter_mut().for_each(|x| prune(x, s, g, at)),
            _ => {}
        }
    }
    if let Some((k, x)) = g.extra.get(*at % 4) {
        o.insert(k.clone(), x.clone());
    }
}

/// Writes a document with fields in some order, white space and escapes
struct Writer<'g> {
    style: &'g [u8],
    at: usize,
    out: String,
}

impl Writer<'_> {
    fn b(&mut self) -> usize {
        if self.style.is_empty() {
            return 0;
        }
        self.at += 1;
        self.style[self.at % self.style.len()] as usize + self.at / self.style.len()
    }
    fn space(&mut self) {
        match self.b() % 11 {
            1 => self.out.push(' '),
            2 => self.out.push_str(" \t"),
            _ => {}
        }
    }
    fn string(&mut self, s: &str) {
        self.out.push('"');
        for c in s.chars() {
            let force = self.b() % 13 == 1;
            match c {
                '"' | '\\' if !force => {
                    self.out.push('\\');
                    self.out.push(c);
                }
                '\n' if !force => self.out.push_str("\\n"),
                '/' if force => self.out.push_str("\\/"),
                c if force || (c as u32) < 0x20 || c == '"' || c == '\\' => {
                    let mut buf = [0; 2];
                    for u in c.encode_utf16(&mut buf) {
                        self.out.push_str(&format!("\\u{u:04x}"));
                    }
                }
                c => self.out.push(c),
            }
        }
        self.out.push('"');
    }
    fn value(&mut self, v: &Value) {
        self.space();
        match v {
            Value::String(s) => self.string(s),
            Value::Array(a) => {
                self.out.push('[');
                for (i, x) in a.iter().enumerate() {
                    if i > 0 {
                        self.out.push(',');
                    }
                    self.value(x);
                }
                self.space();
                self.out.push(']');
            }
            Value::Object(o) => {
                let mut f: Vec<_> = o.iter().collect();
                for i in (1..f.len()).rev() {
                    let j = self.b() % (i + 1);
                    if !self.style.is_empty() {
                        f.swap(i, j);
                    }
                }
                self.out.push('{');
                for (i, (k, x)) in f.into_iter().enumerate() {
                    if i > 0 {
                        self.out.push(',');
                    }
                    self.space();
                    self.string(k);
                    self.space();
                    self.out.push(':');
                    self.value(x);
                }
                self.out.push('}');
            }
            v => self.out.push_str(&v.to_string()),
        }
        self.space();
    }
}

fn write(v: &Value, style: &[u8]) -> String {
    let mut w = Writer { style, at: 0, out: String::new() };
    w.value(v);
    w.out
}

fn same(what: &str, want: &Value, got: &Value) -> R {
    if want == got {
        return Ok(());
    }
    // the first place that differs
    fn at(path: &mut String, a: &Value, b: &Value) -> String {
        match (a, b) {
            (Value::Object(x), Value::Object(y)) => {
                for k in x.keys().chain(y.keys()) {
                    let (p, q) = (x.get(k), y.get(k));
                    if p != q {
                        path.push('.');
                        path.push_str(k);
                        return match (p, q) {
                            (Some(p), Some(q)) => at(path, p, q),
                            (p, q) => format!("{path}: {} instead of {}", show(q), show(p)),
                        };
                    }
                }
                String::new()
            }
            (Value::Array(x), Value::Array(y)) if x.len() == y.len() => {
                for (i, (p, q)) in x.iter().zip(y).enumerate() {
                    if p != q {
                        path.push_str(&format!("[{i}]"));
                        return at(path, p, q);
                    }
                }
                String::new()
            }
            _ => format!("{path}: {b} instead of {a}"),
        }
    }
    fn show(v: Option<&Value>) -> String {
        v.map_or("nothing".to_owned(), |v| v.to_string())
    }
    Err(format!("{what}: {}", at(&mut String::new(), want, got)))
}

fn read(t: &str) -> Result<Result<cm::Metadata, cm::Error>, String> {
    guard(|| cm::MetadataCommand::parse(t)).map_err(|m| format!("{m}\n{t}"))
}

/// The places of all fields
fn places(v: &Value, s: &'static [F], path: &mut Vec<String>, out: &mut Vec<(Vec<String>, &'static F)>) {
    for f in s {
        let Some(x) = v.get(f.0) else { continue };
        path.push(f.0.to_owned());
        out.push((path.clone(), f));
        match (&f.1, x) {
            (Ty::Obj(s), x) if x.is_object() => places(x, s, path, out),
            (Ty::List(s), Value::Array(a)) => {
                for (i, x) in a.iter().enumerate() {
                    path.push(i.to_string());
                    places(x, s, path, out);
                    path.pop();
                }
            }
            _ => {}
        }
        path.pop();
    }
}

fn parent<'v>(v: &'v mut Value, path: &[String]) -> &'v mut Map<String, Value> {
    let mut v = v;
    for p in &path[..path.len() - 1] {
        v = match v {
            Value::Array(a) => &mut a[p.parse::<usize>().unwrap()],
            v => &mut v[p.as_str()],
        };
    }
    v.as_object_mut().unwrap()
}

fn prepared(g: &DocG) -> Value {
    let mut doc = g.doc.clone();
    prune(&mut doc, METADATA, g, &mut 0);
    doc
}

fn c16(g: &DocG, cx: &mut Cx) -> R {
    let doc = prepared(g);
    let want = canon(&doc, METADATA);
    let t = write(&doc, &g.style);
    let md = match read(&t)? {
        Ok(m) => m,
        Err(e) => return Err(format!("the document is refused: {e}\n{t}")),
    };
    same("read from text", &want, &document(&md))?;
    // by the other ways
    let other = |how: &str, r: Result<cm::Metadata, serde_json::Error>| match r {
        Ok(m) => same(how, &want, &document(&m)),
        Err(e) => Err(format!("{how}: {e}\n{t}")),
    };
    other("read from bytes", guard(|| serde_json::from_slice(t.as_bytes()))?)?;
    other("read from a stream", guard(|| serde_json::from_reader(std::io::Cursor::new(t.as_bytes())))?)?;
    other("read from a value", guard(|| serde_json::from_value(doc.clone()))?)?;
    // spoilt in one place it is refused
    let mut all = Vec::new();
    places(&doc, METADATA, &mut Vec::new(), &mut all);
    let (path, f) = &all[g.spoil as usize / 8 % all.len()];
    let mut bad = doc.clone();
    let o = parent(&mut bad, path);
    let what = match (g.spoil % 8, f) {
        (0..=3, F(k, _, D::Required)) if path.last().unwrap() != "root" => {
            o.remove(*k);
            "required field left out"
        }
        (_, F(k, Ty::Kind, _)) => {
            o[*k] = json!(["Dev", "devel", "", "development", "1"][g.spoil as usize % 5]);
            "unknown dependency kind"
        }
        (_, F(k, _, D::E2015)) => {
            o[*k] = json!(["2014", "", "2O21", "next"][g.spoil as usize % 4]);
            "unknown edition"
        }
        (_, F(k, Ty::RustVersion, _)) => {
            o[*k] = json!(["", "x", "1.2.3-beta", "1.0.0+x", "^1.2", "1.2.3.4", "1..2", "1.x"][g.spoil as usize % 8]);
            "malformed rust version"
        }
        (_, F(k, Ty::Req, _)) => {
            o[*k] = json!(["x.y", "=", "1.0.0 2.0.0"][g.spoil as usize % 3]);
            "malformed requirement"
        }
        (_, F("version", _, D::Required)) => {
            o["version"] = json!(["1.0", "", "1.0.0.0", "x"][g.spoil as usize % 4]);
            "malformed version"
        }
        // no field is a number and a list
        (_, F(k, _, d)) if *d != D::Null || *k == "resolve" => {
            o[*k] = if o[*k].is_number() { json!(["x"]) } else { json!(7) };
            "wrong type"
        }
        _ => return Ok(()),
    };
    match read(&write(&bad, &g.style))? {
        Err(cm::Error::Json(_)) => {}
        Err(e) => return Err(format!("{what} at {path:?}: refused with {e:?}")),
        Ok(_) => return Err(format!("{what} at {path:?}: the document is accepted")),
    }
    cx.label(what);
    let fields = all.len();
    cx.label_if(!g.drop.is_empty(), "fields left out");
    cx.label_if(!g.extra.is_empty(), "unknown fields");
    cx.label_if(doc.get("resolve").is_none_or(Value::is_null), "no resolution");
    cx.nontrivial_if(fields > 40);
    cx.sample(|| json!({"document": t.chars().take(600).collect::<String>(), "spoilt": what, "at": path}));
    Ok(())
}

/// What is written: not all that could be null is there
fn written(mut v: Value) -> Value {
    let o = v.as_object_mut().unwrap();
    if o["workspace_default_members"].is_null() {
        o.remove("workspace_default_members");
    }
    for p in o["packages"].as_array_mut().unwrap() {
        if p["metadata"].is_null() {
            p.as_object_mut().unwrap().remove("metadata");
        }
    }
    v
}

/// Every `null` kind by its name
fn named(v: &mut Value) {
    match v {
        Value::Array(a) => a.iter_mut().for_each(named),
        Value::Object(o) => {
            for (k, x) in o {
                if k == "kind" && x.is_null() {
                    *x = json!("normal");
                } else {
                    named(x);
                }
            }
        }
        _ => {}
    }
}

fn c17(g: &DocG, cx: &mut Cx) -> R {
    let doc = prepared(g);
    let want = canon(&doc, METADATA);
    let md: cm::Metadata = match read(&write(&doc, &g.style))? {
        Ok(m) => m,
        Err(e) => return Err(format!("the document is refused: {e}")),
    };
    // null or left out are one and the same to all that read it
    let lenient = |mut v: Value| {
        if let Some(o) = v.as_object_mut() {
            if o.get("workspace_default_members").is_some_and(Value::is_null) {
                o.remove("workspace_default_members");
            }
        }
        for p in v["packages"].as_array_mut().into_iter().flatten() {
            if p["metadata"].is_null() {
                p.as_object_mut().unwrap().remove("metadata");
            }
        }
        named(&mut v);
        v
    };
    let written = |v: Value| {
        let mut v = written(v);
        named(&mut v);
        v
    };
    let t = guard(|| serde_json::to_string(&md))?.map_err(|e| format!("cannot be written: {e}"))?;
    let v: Value = serde_json::from_str(&t).map_err(|e| format!("what is written is no json: {e}\n{t}"))?;
    same("written as text", &written(want.clone()), &lenient(v))?;
    let v = guard(|| serde_json::to_value(&md))?.map_err(|e| format!("cannot be written: {e}"))?;
    same("written as a value", &written(want.clone()), &lenient(v))?;
    // no field is there twice
    if let Some(k) = twice(&t) {
        return Err(format!("the field {k:?} is written twice in one object"));
    }
    // and read again
    let p = serde_json::to_string_pretty(&md).map_err(|e| format!("cannot be written: {e}"))?;
    for t in [t, p] {
        match read(&t)? {
            Ok(m) => same("written and read again", &want, &document(&m))?,
            Err(e) => return Err(format!("what is written cannot be read: {e}\n{t}")),
        }
    }
    // parts on their own
    for p in &md.packages {
        let t = serde_json::to_string(p).map_err(|e| format!("cannot be written: {e}"))?;
        let q: cm::Package = serde_json::from_str(&t).map_err(|e| format!("what is written cannot be read: {e}\n{t}"))?;
        same("a package", &package(p), &package(&q))?;
    }
    cx.label_if(md.resolve.is_some(), "resolution");
    cx.label_if(md.packages.iter().any(|p| p.targets.iter().any(|t| !t.required_features.is_empty())), "required features");
    cx.label_if(md.packages.iter().any(|p| p.rust_version.is_some()), "rust version");
    cx.nontrivial_if(md.packages.iter().any(|p| !p.targets.is_empty() && !p.dependencies.is_empty()) && md.resolve.is_some());
    cx.sample(|| json!({"packages": md.packages.len(), "document": want.to_string().chars().take(600).collect::<String>()}));
    Ok(())
}

/// A key that is there twice in one object, by a scan of the text
fn twice(t: &str) -> Option<String> {
    let mut stack: Vec<Option<std::collections::BTreeSet<String>>> = Vec::new();
    let b = t.as_bytes();
    let mut i = 0;
    while i < b.len() {
        match b[i] {
            b'{' => stack.push(Some(Default::default())),
            b'[' => stack.push(None),
            b'}' | b']' => {
                stack.pop();
            }
            b'"' => {
                let from = i;
                i += 1;
                while b[i] != b'"' {
                    i += 1 + usize::from(b[i] == b'\\');
                }
                if b.get(i + 1) == Some(&b':') {
                    let k = t[from + 1..i].to_owned();
                    if !stack.last_mut()?.as_mut()?.insert(k.clone()) {
                        return Some(k);
                    }
                }
            }
            _ => {}
        }
        i += 1;
    }
    None
}

/// What a path joined to the directory of another is, as text
fn joined(manifest: &str, file: &str) -> String {
    use std::path::Path;
    let m = Path::new(manifest);
    let dir = m.parent().unwrap_or(m);
    dir.join(file).to_str().unwrap().to_owned()
}

fn c29(g: &DocG, cx: &mut Cx) -> R {
    let mut doc = prepared(g);
    // make hits more likely
    let ids: Vec<Value> = doc["packages"].as_array().unwrap().iter().map(|p| p["id"].clone()).collect();
    if !ids.is_empty() {
        let pick = |n: usize| ids[n % ids.len()].clone();
        let s = g.spoil as usize;
        if s % 3 == 0 {
            doc["workspace_members"] = json!([pick(s / 3), pick(s / 7)]);
        }
        if s % 5 < 2 && doc["resolve"].is_object() {
            doc["resolve"]["root"] = pick(s / 5);
        }
        if s % 7 < 3 {
            let at = s / 7 % ids.len();
            doc["packages"][at]["manifest_path"] = json!(joined(&format!("{}/x", doc["workspace_root"].as_str().unwrap()), "Cargo.toml"));
        }
    }
    let md = read(&doc.to_string())?.map_err(|e| format!("the document is refused: {e}"))?;
    let want = canon(&doc, METADATA);
    let pkgs = want["packages"].as_array().unwrap();
    let ids_of = |v: &[&cm::Package]| v.iter().map(|p| package(p)).collect::<Vec<_>>();

    // the root package
    let root = match &want["resolve"] {
        Value::Null => {
            let root = std::path::Path::new(want["workspace_root"].as_str().unwrap()).join("Cargo.toml");
            pkgs.iter().find(|p| std::path::Path::new(p["manifest_path"].as_str().unwrap()) == root)
        }
        r if r["root"].is_null() => None,
        r => pkgs.iter().find(|p| p["id"] == r["root"]),
    };
    let got = guard(|| md.root_package().map(package))?;
    if got.as_ref() != root {
        return Err(format!("the root package is {root:?}, {got:?} is returned"));
    }
    // members, in the order of the packages
    let of = |key: &str| -> Vec<Value> {
        pkgs.iter().filter(|p| want[key].as_array().is_some_and(|m| m.contains(&p["id"]))).cloned().collect()
    };
    let got = ids_of(&guard(|| md.workspace_packages())?);
    if got != of("workspace_members") {
        return Err(format!("the members {} are {:?}, {got:?} are returned", want["workspace_members"], of("workspace_members")));
    }
    if !want["workspace_default_members"].is_null() {
        let got = ids_of(&guard(|| md.workspace_default_packages())?);
        if got != of("workspace_default_members") {
            return Err(format!("the default members {} are {:?}, {got:?} are returned", want["workspace_default_members"], of("workspace_default_members")));
        }
        if md.workspace_default_members.len() != want["workspace_default_members"].as_array().unwrap().len() {
            return Err("the default members have another length".to_owned());
        }
    } else if !md.packages.is_empty() && guard(|| md.workspace_default_packages().len()).is_ok() {
        return Err("default members are returned though there are none in the document".to_owned());
    }
    for (p, j) in md.packages.iter().zip(pkgs) {
        // by id: the first of that id
        let first = pkgs.iter().find(|q| q["id"] == j["id"]).unwrap();
        if package(guard(|| &md[&p.id])?) != *first {
            return Err(format!("the id {} leads to another package", p.id));
        }
        if p.id.to_string() != j["id"].as_str().unwrap() {
            return Err(format!("the id {} is shown as {}", j["id"], p.id));
        }
        // files next to the manifest
        let manifest = j["manifest_path"].as_str().unwrap();
        for (what, got, field) in [("license file", p.license_file(), "license_file"), ("readme", p.readme(), "readme")] {
            let want = j[field].as_str().map(|f| joined(manifest, f));
            if got.as_ref().map(|p| p.as_str().to_owned()) != want {
                return Err(format!("the {what} {:?} of {manifest:?} is {want:?}, {got:?} is returned", j[field]));
            }
            cx.label_if(want.is_some(), "file of a package");
        }
        if let Some(s) = &p.source {
            let text = j["source"].as_str().unwrap();
            if s.is_crates_io() != (text == "registry+https://github.com/rust-lang/crates.io-index") || s.to_string() != text {
                return Err(format!("the source {text} is shown as {s}, crates.io: {}", s.is_crates_io()));
            }
            cx.label_if(s.is_crates_io(), "crates.io");
        }
        for (t, tj) in p.targets.iter().zip(j["targets"].as_array().unwrap()) {
            let has = |k: &str| tj["kind"].as_array().unwrap().iter().any(|x| x == k);
            for (k, got) in [
                ("lib", t.is_lib()),
                ("bin", t.is_bin()),
                ("example", t.is_example()),
                ("test", t.is_test()),
                ("bench", t.is_bench()),
                ("custom-build", t.is_custom_build()),
                ("proc-macro", t.is_proc_macro()),
            ] {
                if got != has(k) {
                    return Err(format!("a target of kinds {} is {}a {k}", tj["kind"], if got { "" } else { "not " }));
                }
            }
        }
    }
    // an id of no package
    let none = cm::PackageId { repr: "no such package".to_owned() };
    if guard(|| md[&none].name.len()).is_ok() {
        return Err("an id of no package leads to one".to_owned());
    }
    cx.label_if(root.is_some(), "root package");
    cx.label_if(root.is_some() && want["resolve"].is_null(), "root package without resolution");
    cx.nontrivial_if(root.is_some() || !of("workspace_members").is_empty());
    cx.sample(|| json!({"root": root.map(|r| r["id"].clone()), "members": of("workspace_members").len(), "packages": pkgs.len()}));
    Ok(())
}

/// The names of kinds, crate types and editions
fn names(t: &String, cx: &mut Cx) -> R {
    let k = guard(|| t.parse::<cm::TargetKind>().ok())?;
    let c = guard(|| t.parse::<cm::CrateType>().ok())?;
    let e = guard(|| t.parse::<cm::Edition>().ok())?;
    let wk = TARGET_KINDS.into_iter().find(|k| target_kind(*k) == t);
    let wc = CRATE_TYPES.into_iter().find(|k| crate_type(*k) == t);
    use cm::Edition::*;
    let we = [E2015, E2018, E2021, E2024].into_iter().find(|e| edition(*e) == t);
    if (k, c, e) != (wk, wc, we) {
        return Err(format!("{t:?} is read as {k:?}, {c:?}, {e:?}"));
    }
    if let Some(e) = e {
        if e.to_string() != *t || e.as_str() != t {
            return Err(format!("the edition {t:?} is shown as {e}"));
        }
    }
    cx.nontrivial_if(k.is_some() || c.is_some() || e.is_some());
    Ok(())
}

fn names_g() -> BoxedStrategy<String> {
    let all: Vec<String> = TARGET_KINDS
        .into_iter()
        .map(target_kind)
        .chain(CRATE_TYPES.into_iter().map(crate_type))
        .chain(["2015", "2018", "2021", "2024", "2012", "Lib", "r-lib", "procmacro", "custom_build", ""])
        .map(str::to_owned)
        .collect();
    prop_oneof![4 => prop::sample::select(all), 1 => "[a-z-]{0,8}", 1 => "20[0-9]{2}"].boxed()
}

/// A document cut, doubled or changed anywhere: an error or a document
#[derive(Clone, Debug, Serialize, Deserialize)]
struct NoiseG {
    doc: DocG,
    edits: Vec<(u32, u8)>,
}

fn noise_g() -> BoxedStrategy<NoiseG> {
    (doc_g(), vec((any::<u32>(), any::<u8>()), 1..5)).prop_map(|(doc, edits)| NoiseG { doc, edits }).boxed()
}

fn noise(g: &NoiseG, cx: &mut Cx) -> R {
    let mut t = write(&prepared(&g.doc), &g.doc.style).into_bytes();
    for (at, b) in &g.edits {
        if t.is_empty() {
            break;
        }
        let at = *at as usize % t.len();
        match b % 5 {
            0 => t.truncate(at),
            1 => {
                t.remove(at);
            }
            2 => t[at] = b"{}[]\",:0eE-.nul\\ "[*b as usize / 5 % 17],
            3 => t.insert(at, b"{}[]\",:0eE-.nul\\ "[*b as usize / 5 % 17]),
            _ => {
                let piece = t[at..(at + 9).min(t.len())].to_vec();
                t.splice(at..at, piece);
            }
        }
    }
    let t = String::from_utf8_lossy(&t).into_owned();
    match read(&t)? {
        Ok(m) => {
            cx.label("still a document");
            // what was taken is what is there, as far as it is a plain document
            if let Ok(v) = serde_json::from_str::<Value>(&t) {
                let mut plain = Vec::new();
                places(&v, METADATA, &mut Vec::new(), &mut plain);
                let n = v["packages"].as_array().map_or(0, Vec::len);
                if twice(&t).is_none() && m.packages.len() != n {
                    return Err(format!("{n} packages are read as {}", m.packages.len()));
                }
            }
        }
        Err(cm::Error::Json(_)) => cx.label("refused"),
        Err(e) => return Err(format!("refused with {e:?}")),
    }
    cx.nontrivial_if(t.len() > 100);
    cx.sample(|| json!(t.chars().take(300).collect::<String>()));
    Ok(())
}

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C16",
            rule: "Metadata documents of every field cargo prints, with text of every kind, optional fields left out, unknown fields added, fields in any order, with white space and escapes, read in four ways and compared field by field; each is then spoilt in one place and must be refused; and documents changed at random must be read or refused without a panic. Non-trivial: more than 40 fields (or 100 bytes).",
            assumptions: &["the fields and defaults are those of `cargo metadata` format 1 and of the documentation of the types"],
            parts: vec![part("documents", 30_000, 3_000_000, doc_g, c16), part("noise", 60_000, 6_000_000, noise_g, noise)],
        },
        Check {
            id: "C17",
            rule: "Documents as for C16 are read and written again; what is written must be the document, under cargo's own names, each once, and be read as the same. Non-trivial: a resolution, and a package with targets and dependencies.",
            assumptions: &["a normal dependency kind may be written by name instead of null, and what is null may be left out, as all that read these documents take them for the same"],
            parts: vec![part("documents", 40_000, 4_000_000, doc_g, c17)],
        },
        Check {
            id: "C29",
            rule: "Documents as for C16, with members, roots and manifests that hit their packages often; root package, members, look-up by id, files, sources and kinds of targets are compared with the document itself; and the names of kinds, crate types and editions are parsed. Non-trivial: a root package or a member is found; a name is one.",
            assumptions: &["the documented panics (no default members, no such id) are expected"],
            parts: vec![part("documents", 100_000, 8_000_000, doc_g, c29), part("names", 50_000, 500_000, names_g, names)],
        },
    ]
}
