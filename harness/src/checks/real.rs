//! C26: projects on disk, read through the real cargo, against `cargo tree`.

use super::filters::look;
use super::*;
use crate::obs::Obs;
use crate::runner::*;
use crate::world::{Kind, Pkg, REGISTRIES, Src, World};
use krates::cm;
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use std::fmt::Write as _;
use std::path::{Path, PathBuf};
use std::process::Command;
use std::sync::OnceLock;
use std::sync::atomic::{AtomicU64, Ordering};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RealG {
    world: WorldG,
    flags: u8,
    /// which kinds are left out, and for which target
    without: u8,
    target: u8,
}

fn real_g() -> BoxedStrategy<RealG> {
    let w = prop_oneof![
        3 => world::world_sized(2..=5, 6, 5),
        2 => world::world_sized(3..=9, 5, 4),
        1 => world::world_sized(8..=16, 6, 4),
    ];
    (w, any::<u8>(), any::<u8>(), any::<u8>())
        .prop_map(|(mut world, flags, without, target)| {
            let mut used = BTreeSet::new();
            for (i, p) in world.pkgs.iter_mut().enumerate() {
                // packages in git repositories would have to be fetched
                p.src = match p.src % 12 {
                    7 | 8 | 10 => 9,
                    s => s,
                };
                // one path package of a name, as cargo wants it
                if i == 0 || matches!(p.src, 5 | 6 | 9) {
                    while !used.insert(p.name % 12) && used.len() < 12 {
                        p.name = p.name % 12 + 1;
                    }
                }
                for (i, d) in p.deps.iter_mut().enumerate() {
                    // cargo picks the best version: mostly there is just the one
                    if (d.req as usize + i) % 8 != 0 {
                        d.req = d.req / 8 * 8 + 2;
                    }
                }
            }
            RealG { world, flags, without, target }
        })
        .boxed()
}

/// The cargo itself, not the rustup stand-in for it
fn cargo() -> &'static Path {
    static P: OnceLock<PathBuf> = OnceLock::new();
    P.get_or_init(|| {
        let out = Command::new("rustc").args(["--print", "sysroot"]).output().expect("harness: rustc");
        let p = Path::new(String::from_utf8_lossy(&out.stdout).trim()).join("bin/cargo");
        if p.exists() { p } else { "cargo".into() }
    })
}

/// And the rustc itself, which cargo asks about targets
fn rustc() -> PathBuf {
    let p = cargo().with_file_name("rustc");
    if p.exists() { p } else { "rustc".into() }
}

/// What cargo has for target features of this machine
fn host_features() -> &'static [String] {
    static P: OnceLock<Vec<String>> = OnceLock::new();
    P.get_or_init(|| {
        let out = Command::new("rustc").args(["--print", "cfg"]).output().expect("harness: rustc");
        let t = String::from_utf8_lossy(&out.stdout).into_owned();
        t.lines().filter_map(|l| l.strip_prefix("target_feature=\"")?.strip_suffix('"')).map(str::to_owned).collect()
    })
}

fn host() -> &'static str {
    static P: OnceLock<String> = OnceLock::new();
    P.get_or_init(|| {
        let out = Command::new("rustc").arg("-vV").output().expect("harness: rustc");
        let t = String::from_utf8_lossy(&out.stdout).into_owned();
        t.lines().find_map(|l| l.strip_prefix("host: ")).expect("harness: host").to_owned()
    })
}

/// As a TOML string
fn q(s: &str) -> String {
    format!("\"{}\"", s.replace('\\', "\\\\").replace('"', "\\\""))
}

fn relative(from: &str, to: &str) -> String {
    let (a, b): (Vec<&str>, Vec<&str>) = (from.split('/').collect(), to.split('/').collect());
    let n = a.iter().zip(&b).take_while(|(x, y)| x == y).count();
    let mut parts = vec![".."; a.len() - n];
    parts.extend(&b[n..]);
    if parts.is_empty() { ".".to_owned() } else { parts.join("/") }
}

struct Project {
    base: String,
    root: String,
}

impl Drop for Project {
    fn drop(&mut self) {
        if std::env::var_os("KV_KEEP").is_some() {
            return;
        }
        let _ = std::fs::remove_dir_all(&self.base);
    }
}

fn write(path: &str, text: &str) {
    std::fs::create_dir_all(Path::new(path).parent().unwrap()).expect("harness: directory");
    std::fs::write(path, text).expect("harness: file");
}

const REG_NAMES: [&str; 5] = ["crates-io", "alt", "sp", "mirror", "second"];

fn index_of(r: usize) -> &'static str {
    REGISTRIES[r].trim_start_matches("registry+")
}

/// Where a package is on disk
fn dir_of(p: &Pkg, base: &str) -> String {
    match &p.src {
        Src::Registry(r) => format!("{base}/vendor/{}/{}-{}", REG_NAMES[*r], p.name, p.version),
        _ => p.manifest_path().strip_suffix("/Cargo.toml").unwrap().replace("/kv-none", base),
    }
}

/// A feature that is there just because the dependency is optional
fn implicit(p: &Pkg, name: &str) -> bool {
    let dep = format!("dep:{name}");
    p.features.get(name).is_some_and(|l| *l == [dep.clone()])
        && !p.features.iter().any(|(n, l)| n != name && l.contains(&dep))
        && p.decls.iter().any(|d| d.toml == name && d.optional)
}

/// Writes the world out. The registries are directories, as from `cargo vendor`
fn lay_out(w: &World, base: String) -> Project {
    let mut config = String::from("[net]\noffline = true\n");
    for (r, name) in REG_NAMES.iter().enumerate() {
        std::fs::create_dir_all(format!("{base}/vendor/{name}")).expect("harness: directory");
        let _ = writeln!(config, "[source.v-{name}]\ndirectory = {}", q(&format!("{base}/vendor/{name}")));
        let _ = writeln!(config, "[source.{name}]\nreplace-with = \"v-{name}\"");
        if r > 0 {
            let _ = writeln!(config, "registry = {}", q(index_of(r)));
            let _ = writeln!(config, "[registries.{name}]\nindex = {}", q(index_of(r)));
        }
    }
    write(&format!("{base}/home/config.toml"), &config);
    let ws = format!("{base}/ws");
    let root = match w.root {
        Some(r) => dir_of(&w.pkgs[r], &base),
        None => ws,
    };
    let mut workspace = String::from("[workspace]\nresolver = \"1\"\nmembers = [");
    for (i, p) in w.pkgs.iter().enumerate() {
        if p.member && w.root != Some(i) {
            let _ = write!(workspace, "{}, ", q(&relative(&root, &dir_of(p, &base))));
        }
    }
    workspace += "]\n[patch.crates-io]\n";
    for (i, p) in w.pkgs.iter().enumerate() {
        if p.patched {
            let _ = writeln!(workspace, "p{i} = {{ package = {}, path = {} }}", q(&p.name), q(&dir_of(p, &base)));
        }
    }
    if w.root.is_none() {
        write(&format!("{root}/Cargo.toml"), &workspace);
    }
    for (i, p) in w.pkgs.iter().enumerate() {
        let dir = dir_of(p, &base);
        let mut t = format!("[package]\nname = {}\nversion = {}\nedition = \"2018\"\nautobins = false\nautotests = false\n", q(&p.name), q(&p.version));
        if p.member && w.root != Some(i) {
            let _ = writeln!(t, "workspace = {}", q(&relative(&dir, &root)));
        }
        let _ = writeln!(t, "[lib]\nname = {}", q(&p.lib_name));
        if p.lib_kinds == [cm::TargetKind::ProcMacro] {
            t += "proc-macro = true\n";
        } else {
            let kinds: Vec<_> = p.lib_kinds.iter().map(|k| q(super::json::target_kind(*k))).collect();
            let _ = writeln!(t, "crate-type = [{}]", kinds.join(", "));
        }
        write(&format!("{dir}/src/lib.rs"), "");
        if p.lib_style & 2 == 2 {
            write(&format!("{dir}/build.rs"), "fn main() {}");
        }
        t += "[features]\n";
        for (n, l) in &p.features {
            if !implicit(p, n) {
                let _ = writeln!(t, "{} = [{}]", q(n), l.iter().map(|e| q(e)).collect::<Vec<_>>().join(", "));
            }
        }
        for d in &p.decls {
            let table = match d.kind {
                Kind::Normal => "dependencies",
                Kind::Dev => "dev-dependencies",
                Kind::Build => "build-dependencies",
            };
            let _ = match &d.target {
                Some(k) => writeln!(t, "[target.{}.{table}.{}]", q(&k.text()), q(&d.toml)),
                None => writeln!(t, "[{table}.{}]", q(&d.toml)),
            };
            let to = &w.pkgs[d.to];
            if d.rename.is_some() {
                let _ = writeln!(t, "package = {}", q(&to.name));
            }
            match &to.src {
                _ if to.patched => {
                    let _ = writeln!(t, "version = {}", q(&d.req));
                }
                Src::Registry(r) => {
                    let _ = writeln!(t, "version = {}", q(&d.req));
                    if *r > 0 {
                        let _ = writeln!(t, "registry-index = {}", q(index_of(*r)));
                    }
                }
                _ => {
                    let _ = writeln!(t, "path = {}", q(&relative(&dir, &dir_of(to, &base))));
                }
            }
            if d.optional {
                t += "optional = true\n";
            }
            if d.nodef {
                t += "default-features = false\n";
            }
            if !d.features.is_empty() {
                let _ = writeln!(t, "features = [{}]", d.features.iter().map(|f| q(f)).collect::<Vec<_>>().join(", "));
            }
        }
        if w.root == Some(i) {
            t += &workspace;
        }
        write(&format!("{dir}/Cargo.toml"), &t);
        if matches!(p.src, Src::Registry(_)) {
            write(&format!("{dir}/.cargo-checksum.json"), "{\"files\":{}}");
        }
    }
    Project { base, root }
}

/// Name, version, and the directory or registry
type Pk = (String, String, String);
type Seen = (BTreeMap<Pk, BTreeSet<String>>, BTreeSet<(Pk, Pk, Kind)>);

/// Reads what `cargo tree` prints with `-f '{p}|{f}' --charset ascii`
fn read_tree(text: &str) -> Option<Seen> {
    let mut pkgs: BTreeMap<Pk, BTreeSet<String>> = BTreeMap::new();
    let mut links = BTreeSet::new();
    // the packages above, and the kind of what is listed below each
    let mut above: Vec<(Pk, Kind)> = Vec::new();
    for line in text.lines() {
        if line.is_empty() {
            above.clear();
            continue;
        }
        let mut rest = line;
        let mut depth = 0;
        while let Some(r) = ["|   ", "    ", "|-- ", "`-- "].iter().find_map(|p| rest.strip_prefix(p)) {
            rest = r;
            depth += 1;
        }
        let kind = match rest {
            "[build-dependencies]" => Some(Kind::Build),
            "[dev-dependencies]" => Some(Kind::Dev),
            _ => None,
        };
        if let Some(k) = kind {
            above.truncate(depth + 1);
            above.last_mut()?.1 = k;
            continue;
        }
        let (p, f) = rest.split_once('|')?;
        let f = f.strip_suffix("(*)").unwrap_or(f).trim();
        let mut words = p.splitn(3, ' ');
        let name = words.next()?.to_owned();
        let version = words.next()?.strip_prefix('v')?.to_owned();
        let place = words.next().unwrap_or("").trim_start_matches("(proc-macro)").trim();
        let place = place.strip_prefix('(').map_or("", |p| p.strip_suffix(')').unwrap_or(p)).to_owned();
        // a registry goes by its name or by its url
        let place = match place.strip_prefix("registry `").map(|r| r.trim_end_matches('`')) {
            Some(r) => match (1..REG_NAMES.len()).find(|i| r == REG_NAMES[*i] || index_of(*i).ends_with(r)) {
                Some(i) => format!("registry {}", REG_NAMES[i]),
                None => place,
            },
            None if place.starts_with("file://") => git_place(&place),
            None => place,
        };
        let pk = (name, version, place);
        let fs: BTreeSet<String> = f.split(',').filter(|f| !f.is_empty()).map(str::to_owned).collect();
        pkgs.entry(pk.clone()).or_default().extend(fs);
        above.truncate(depth);
        if depth > 0 {
            let (up, kind) = above.get(depth - 1)?;
            links.insert((up.clone(), pk.clone(), *kind));
        }
        above.push((pk, Kind::Normal));
    }
    Some((pkgs, links))
}

/// A git repository and reference, without the commit and encodings
fn git_place(s: &str) -> String {
    let s = s.rsplit_once('#').map_or(s, |s| s.0).as_bytes();
    let mut out = Vec::new();
    let mut i = 0;
    while i < s.len() {
        let hex = s.get(i + 1..i + 3).and_then(|h| u8::from_str_radix(std::str::from_utf8(h).ok()?, 16).ok());
        match hex {
            Some(b) if s[i] == b'%' => {
                out.push(b);
                i += 3;
            }
            _ => {
                out.push(s[i]);
                i += 1;
            }
        }
    }
    String::from_utf8_lossy(&out).into_owned()
}

fn keys(md: &cm::Metadata) -> BTreeMap<&str, Pk> {
    md.packages
        .iter()
        .map(|p| {
            let place = match &p.source {
                None => p.manifest_path.parent().unwrap().to_string(),
                Some(s) if s.repr.starts_with("git+") => git_place(&s.repr[4..]),
                Some(s) => {
                    let r = REGISTRIES.iter().position(|r| *r == s.repr).unwrap_or(0);
                    if r == 0 { String::new() } else { format!("registry {}", REG_NAMES[r]) }
                }
            };
            (p.id.repr.as_str(), (p.name.clone(), p.version.to_string(), place))
        })
        .collect()
}

fn seen_of(md: &cm::Metadata, o: &Obs) -> Seen {
    let pk = keys(md);
    (
        o.features.iter().map(|(i, f)| (pk[i.as_str()].clone(), f.clone())).collect(),
        o.links().keys().map(|(s, d, k, _)| (pk[s.as_str()].clone(), pk[d.as_str()].clone(), *k)).collect(),
    )
}

/// What the document says is resolved
struct Resolved {
    features: BTreeMap<Pk, BTreeSet<String>>,
    links: BTreeSet<(Pk, Pk)>,
}

impl Resolved {
    /// Drops everything else. Whether there was something
    fn keep(&self, s: &mut Seen) -> bool {
        let size = |s: &Seen| (s.0.len(), s.0.values().map(BTreeSet::len).sum::<usize>(), s.1.len());
        let before = size(s);
        s.0.retain(|p, _| self.features.contains_key(p));
        for (p, f) in &mut s.0 {
            f.retain(|f| self.features[p].contains(f));
        }
        s.1.retain(|(a, b, _)| self.links.contains(&(a.clone(), b.clone())));
        before != size(s)
    }
}

fn resolved(md: &cm::Metadata) -> Resolved {
    let pk = keys(md);
    let nodes = || md.resolve.iter().flat_map(|r| &r.nodes);
    Resolved {
        features: nodes().map(|n| (pk[n.id.repr.as_str()].clone(), n.features.iter().map(|f| f.to_string()).collect())).collect(),
        links: nodes()
            .flat_map(|n| n.deps.iter().map(|d| (pk[n.id.repr.as_str()].clone(), pk[d.pkg.repr.as_str()].clone())))
            .collect(),
    }
}

/// An own feature of the name of an optional dependency, and somewhere
/// `name/feature`: the finding about these is looked at elsewhere
fn has_strong(md: &cm::Metadata) -> bool {
    md.packages.iter().any(|p| {
        p.dependencies.iter().filter(|d| d.optional).any(|d| {
            let n = d.rename.as_ref().unwrap_or(&d.name);
            let strong = format!("{n}/");
            p.features.contains_key(n) && p.features.values().flatten().any(|e| e.starts_with(&strong))
        })
    })
}

fn show<T: std::fmt::Debug + Ord>(what: &str, tree: &BTreeSet<T>, graph: &BTreeSet<T>, equal: bool) -> R {
    let extra: Vec<_> = graph.difference(tree).take(4).collect();
    let missing: Vec<_> = tree.difference(graph).take(4).collect();
    if !extra.is_empty() || equal && !missing.is_empty() {
        return Err(format!("{what}: only in the graph {extra:?}; only in cargo tree {missing:?}"));
    }
    Ok(())
}

fn compare(what: &str, tree: &Seen, graph: &Seen, features: bool, equal: bool) -> R {
    let keys = |s: &Seen| s.0.keys().cloned().collect::<BTreeSet<_>>();
    show(&format!("{what}: packages"), &keys(tree), &keys(graph), equal)?;
    show(&format!("{what}: links"), &tree.1, &graph.1, equal)?;
    if features {
        for (p, f) in &graph.0 {
            show(&format!("{what}: features of {p:?}"), &tree.0[p], f, equal)?;
        }
    }
    Ok(())
}

fn flags_of(g: &RealG, w: &World) -> (Vec<String>, krates::Cmd) {
    let mut cmd = krates::Cmd::new();
    let mut args = Vec::new();
    match g.flags % 6 {
        0 | 1 => {}
        2 => {
            cmd.all_features();
            args.push("--all-features".to_owned());
        }
        3 => {
            cmd.no_default_features();
            args.push("--no-default-features".to_owned());
        }
        k => {
            if let Some(r) = w.root {
                let f: Vec<_> = w.pkgs[r].features.keys().collect();
                if !f.is_empty() {
                    let n = f.len();
                    let mut l = vec![f[g.flags as usize / 6 % n].clone(), f[g.flags as usize / 12 % n].clone()];
                    l.dedup();
                    args.extend(["--features".to_owned(), l.join(",")]);
                    cmd.features(l);
                }
            }
            if k == 5 {
                cmd.no_default_features();
                args.push("--no-default-features".to_owned());
            }
        }
    }
    (args, cmd)
}

fn real(g: &RealG, cx: &mut Cx) -> R {
    static N: AtomicU64 = AtomicU64::new(0);
    let mut w = World::decode(&g.world);
    for p in &mut w.pkgs {
        for d in &mut p.decls {
            // `cargo tree --target all` shows what no target can have
            if let Some(crate::cfgs::Key::Cfg(e)) = &d.target {
                if e.never() {
                    d.target = None;
                }
            }
        }
        let mut seen = BTreeSet::new();
        p.decls.retain(|d| seen.insert((d.toml.clone(), d.kind, d.target.as_ref().map(|t| t.text()))));
    }
    let project = lay_out(&w, cx.scratch.join(format!("real-{}", N.fetch_add(1, Ordering::Relaxed))).to_str().unwrap().to_owned());
    let (args, cmd) = flags_of(g, &w);
    let cargo = Cargo { dir: project.root.clone(), home: format!("{}/home", project.base), args };
    let Some(md) = cargo.document(cmd, cx)? else { return Ok(()) };
    let alone = w.root.is_some() && g.flags & 64 == 0;
    let Some(whole) = cargo.judge(&md, alone, g.without, cx)? else { return Ok(()) };
    cx.label_if(crate::model::Model::new(&md).pkgs.iter().any(crate::model::MPkg::alike), "two dependencies of one extern name");
    cx.label(["as it is", "as it is", "all features", "no default features", "some features", "some features, no default"][g.flags as usize % 6]);
    cx.label(match (w.root, alone) {
        (None, _) => "virtual workspace",
        (_, true) => "root package alone",
        _ => "root package and workspace",
    });
    cx.nontrivial_if(whole.1.len() > 1 && whole.0.values().any(|f| !f.is_empty()));
    cx.sample(|| {
        json!({"packages": whole.0.iter().map(|(p, f)| format!("{} {} {f:?}", p.0, p.1)).collect::<Vec<_>>(),
            "links": whole.1.len(), "flags": cargo.args})
    });
    Ok(())
}

/// A project for the real cargo
struct Cargo {
    dir: String,
    home: String,
    /// the feature flags
    args: Vec<String>,
}

impl Cargo {
    fn run(&self, sub: &str, args: &[&str]) -> std::process::Output {
        Command::new(cargo())
            .current_dir(&self.dir)
            .env("CARGO_HOME", &self.home)
            .env("RUSTC", rustc())
            .env_remove("RUSTUP_TOOLCHAIN")
            .args([sub, "--offline", "--manifest-path", &format!("{}/Cargo.toml", self.dir)])
            .args(args)
            .args(&self.args)
            .output()
            .expect("harness: cargo")
    }

    /// The document, if cargo takes the project, through the crate's own command
    fn document(&self, mut cmd: krates::Cmd, cx: &mut Cx) -> Result<Option<cm::Metadata>, String> {
        let version = ["--format-version", "1"];
        let out = self.run("metadata", &version);
        if !out.status.success() {
            cx.label("refused by cargo");
            if std::env::var_os("KV_SHOW").is_some() {
                eprintln!("{}", String::from_utf8_lossy(&out.stderr));
            }
            return Ok(None);
        }
        cmd.manifest_path(format!("{}/Cargo.toml", self.dir))
            .cargo_path(cargo())
            .lock_opts(krates::LockOptions { frozen: false, locked: false, offline: true });
        let mut mdc = cm::MetadataCommand::from(cmd);
        mdc.env("CARGO_HOME", &self.home).env("RUSTC", rustc());
        let md = match guard(|| mdc.exec())? {
            Ok(md) => md,
            // with the lock file of the first run cargo may not find its way again
            Err(cm::Error::CargoMetadata { .. }) if !self.run("metadata", &version).status.success() => {
                cx.label("refused by cargo");
                return Ok(None);
            }
            Err(e) => return Err(format!("cargo prints a document, krates says: {e}")),
        };
        let direct: serde_json::Value = serde_json::from_slice(&out.stdout).expect("harness: document");
        let again = serde_json::to_value(&md).expect("harness: document");
        super::json::alike(&direct, &again).map_err(|e| format!("the document written again differs from cargo's: {e}"))?;
        Ok(Some(md))
    }

    fn tree(&self, ws: bool, more: &[&str]) -> Option<Seen> {
        let which: &[&str] = if ws { &["--workspace"] } else { &[] };
        let out = self.run("tree", &[which, &["--charset", "ascii", "--prefix", "indent", "-f", "{p}|{f}"], more].concat());
        if !out.status.success() {
            return None;
        }
        let text = String::from_utf8_lossy(&out.stdout).into_owned();
        match read_tree(&text) {
            Some(s) => Some(s),
            None => panic!("harness: cannot read\n{text}"),
        }
    }

    /// Compares the graph of the root package alone, or of all of the
    /// workspace, with what `cargo tree` lists
    fn judge(&self, md: &cm::Metadata, alone: bool, without: u8, cx: &mut Cx) -> Result<Option<Seen>, String> {
        let graph = |f: &dyn Fn(&mut krates::Builder)| -> Result<Seen, String> {
            let mut b = krates::Builder::new();
            b.workspace(!alone);
            f(&mut b);
            let md = md.clone();
            let k = guard(|| b.build_with_metadata::<cm::Package, krates::Edge, _>(md, krates::NoneFilter))?
                .map_err(|e| format!("building failed: {e}"))?;
            Ok(seen_of(&copy(&k), &look(&k)?))
        };
        let strong = has_strong(md);
        // `cargo tree --target all` shows what no target can have
        let never = md.packages.iter().flat_map(|p| &p.dependencies).any(|d| d.target.as_deref().is_some_and(|t| match crate::cfgs::Key::parse(t) {
            crate::cfgs::Key::Cfg(e) => e.never(),
            _ => false,
        }));
        let everything = ["-e", "normal,build,dev", "--target", "all"];
        let Some(mut all) = self.tree(true, &everything) else {
            cx.label("refused by cargo tree");
            return Ok(None);
        };
        // A member's dev-dependencies have the features that other crates enable
        // on the member in `cargo tree`, and do not in the document
        let known = resolved(md);
        cx.label_if(known.keep(&mut all), "cargo tree has more than the document");
        let whole = graph(&|_| {})?;
        // For its members `cargo metadata` counts features behind `name?/feature`
        // that nothing turns on, and the graph starts from what it says
        let root = md.resolve.as_ref().and_then(|r| r.root.as_ref());
        let beyond = md.resolve.iter().flat_map(|r| &r.nodes).any(|n| {
            let is_root = if alone { root == Some(&n.id) } else { md.workspace_members.contains(&n.id) };
            is_root && {
                let p = md.packages.iter().find(|p| p.id == n.id).unwrap();
                let pk = (p.name.clone(), p.version.to_string(), p.manifest_path.parent().unwrap().to_string());
                all.0.get(&pk).is_none_or(|f| n.features.iter().any(|x| !f.contains(x)))
            }
        });
        if beyond {
            cx.label("features of a root that cargo tree does not have");
            if !strong && !never && !alone {
                compare("everything, the other way round", &whole, &all, true, false)?;
            }
            return Ok(None);
        }
        if alone {
            // for the package alone cargo leaves out what other members have dev
            // dependencies for
            compare("the root package", &all, &whole, true, false)?;
            let Some(mut own) = self.tree(false, &everything) else { return Ok(Some(whole)) };
            known.keep(&mut own);
            if !strong && !never {
                compare("the root package, the other way round", &whole, &own, true, false)?;
            }
        } else {
            compare("everything", &all, &whole, true, !strong && !never)?;
        }
        cx.label_if(strong, "strong feature of an own name");

        // without some kinds
        let left = match without % 3 {
            0 => ("normal,build", vec![Kind::Dev]),
            1 => ("normal,dev", vec![Kind::Build]),
            _ => ("normal", vec![Kind::Dev, Kind::Build]),
        };
        let Some(some) = self.tree(true, &["-e", left.0, "--target", "all"]) else { return Ok(Some(whole)) };
        let cut = graph(&|b| {
            for k in &left.1 {
                b.ignore_kind(k.krates(), krates::Scope::All);
            }
        })?;
        compare(&format!("without {:?}", left.1), &some, &cut, true, false)?;
        // for this machine alone
        let Some(here) = self.tree(true, &["-e", "normal,build,dev", "--target", host()]) else { return Ok(Some(whole)) };
        let cut2 = graph(&|b| {
            b.include_targets([(host(), host_features().to_vec())]);
        })?;
        // rustc says `debug_assertions`, which is nothing of the target's
        if !md.packages.iter().flat_map(|p| &p.dependencies).any(|d| d.target.as_ref().is_some_and(|t| t.contains("debug_assertions"))) {
            compare(&format!("for {}", host()), &here, &cut2, true, false)?;
        }
        cx.label_if(whole.0.len() > 5, "more than 5 packages");
        cx.label_if(whole.0.len() > 30, "more than 30 packages");
        cx.label_if(cut.0.len() < whole.0.len(), "packages gone with a kind");
        cx.label_if(cut2.0.len() < whole.0.len(), "packages gone for a target");
        Ok(Some(whole))
    }
}

/// A crate the machine has from crates.io, as it is used
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct UseG {
    name: String,
    version: String,
    /// exactly this version, or one that goes with it
    exact: bool,
    features: Vec<String>,
    /// kind, optional, without default features, renamed, for which target
    bits: [u8; 5],
    /// entries of own features
    own: Vec<(u8, u8, u8)>,
    /// in the other member
    other: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RegG {
    uses: Vec<UseG>,
    flags: u8,
    without: u8,
    conf: Vec<crate::conf::ConfG>,
}

struct Known {
    name: String,
    version: String,
    features: Vec<String>,
}

fn registry() -> PathBuf {
    let home = std::env::var_os("CARGO_HOME").map(PathBuf::from);
    home.unwrap_or_else(|| PathBuf::from(std::env::var_os("HOME").unwrap_or_else(|| "/root".into())).join(".cargo")).join("registry")
}

/// The crates that are there, in order of their names
fn known() -> &'static [Known] {
    static P: OnceLock<Vec<Known>> = OnceLock::new();
    P.get_or_init(|| {
        let mut v = Vec::new();
        for d in std::fs::read_dir(registry().join("src")).into_iter().flatten().flatten() {
            for c in std::fs::read_dir(d.path()).into_iter().flatten().flatten() {
                let Ok(t) = std::fs::read_to_string(c.path().join("Cargo.toml")) else { continue };
                let mut at = "";
                let mut k = Known { name: String::new(), version: String::new(), features: Vec::new() };
                for l in t.lines() {
                    if l.starts_with('[') {
                        at = l.trim();
                    } else if let Some((n, v)) = l.split_once(" = ") {
                        let n = n.trim_matches('"');
                        match (at, n) {
                            ("[package]", "name") => k.name = v.trim_matches('"').to_owned(),
                            ("[package]", "version") => k.version = v.trim_matches('"').to_owned(),
                            // what is of no use to others
                            ("[features]", n) if !n.contains("nightly") && !n.contains(char::is_whitespace) => k.features.push(n.to_owned()),
                            _ => {}
                        }
                    }
                }
                if !k.name.is_empty() && k.version.parse::<semver::Version>().is_ok() {
                    k.features.sort();
                    v.push(k);
                }
            }
        }
        v.sort_by(|a, b| (&a.name, &a.version).cmp(&(&b.name, &b.version)));
        v
    })
}

fn reg_g() -> BoxedStrategy<RegG> {
    let one = (any::<u16>(), any::<[u8; 5]>(), proptest::collection::vec(any::<u8>(), 0..5), any::<bool>(), proptest::collection::vec(any::<(u8, u8, u8)>(), 0..4), any::<u8>())
        .prop_map(|(which, bits, fs, exact, own, other)| {
            let none = Known { name: String::new(), version: String::new(), features: Vec::new() };
            let all = known();
            let k = if all.is_empty() { &none } else { &all[which as usize % all.len()] };
            let mut features: Vec<String> =
                if k.features.is_empty() { vec![] } else { fs.iter().map(|f| k.features[*f as usize % k.features.len()].clone()).collect() };
            features.sort();
            features.dedup();
            UseG { name: k.name.clone(), version: k.version.clone(), exact, features, bits, own, other: other % 4 == 0 }
        });
    (proptest::collection::vec(one, 1..6), any::<u8>(), any::<u8>(), proptest::collection::vec(crate::conf::conf_g(), 4))
        .prop_map(|(uses, flags, without, conf)| RegG { uses, flags, without, conf })
        .boxed()
}

/// A CARGO_HOME of this thread with all of the crates
fn reg_home(scratch: &Path) -> String {
    thread_local!(static HOME: std::cell::OnceCell<String> = const { std::cell::OnceCell::new() });
    static N: AtomicU64 = AtomicU64::new(0);
    HOME.with(|h| {
        h.get_or_init(|| {
            let home = scratch.join(format!("reg-home-{}", N.fetch_add(1, Ordering::Relaxed)));
            let there = registry();
            let reg = home.join("registry");
            std::fs::create_dir_all(&reg).expect("harness: directory");
            let link = |a: &Path, b: &Path| std::os::unix::fs::symlink(a, b).expect("harness: link");
            for d in ["cache", "index"] {
                // what is in it is only read, what cargo adds goes to the scratch directory
                std::fs::create_dir_all(reg.join(d)).expect("harness: directory");
                for r in std::fs::read_dir(there.join(d)).into_iter().flatten().flatten() {
                    let to = reg.join(d).join(r.file_name());
                    std::fs::create_dir_all(&to).expect("harness: directory");
                    for e in std::fs::read_dir(r.path()).into_iter().flatten().flatten() {
                        link(&e.path(), &to.join(e.file_name()));
                    }
                }
            }
            for r in std::fs::read_dir(there.join("src")).into_iter().flatten().flatten() {
                let to = reg.join("src").join(r.file_name());
                std::fs::create_dir_all(&to).expect("harness: directory");
                for e in std::fs::read_dir(r.path()).into_iter().flatten().flatten() {
                    link(&e.path(), &to.join(e.file_name()));
                }
            }
            home.to_str().unwrap().to_owned()
        })
        .clone()
    })
}

/// The manifests of the two members: root, and the other
fn manifests(g: &RegG) -> (String, String, Vec<String>) {
    let mut t = [String::new(), String::new()];
    let mut feats: [BTreeMap<String, Vec<String>>; 2] = Default::default();
    // a name is one package in each of them
    let mut tomls: [BTreeMap<String, (String, String)>; 2] = Default::default();
    let mut tables: BTreeSet<(usize, String, &str, Option<&str>)> = BTreeSet::new();
    for u in &g.uses {
        let m = usize::from(u.other);
        let toml = if u.bits[3] % 6 == 0 { format!("re-{}", u.name) } else { u.name.clone() };
        // nor is a package there under two names
        if tomls[m].iter().any(|(n, p)| (*n == toml) != (*p == (u.name.clone(), u.version.clone()))) {
            continue;
        }
        let table = match u.bits[0] % 6 {
            4 => "dev-dependencies",
            5 => "build-dependencies",
            _ => "dependencies",
        };
        let target = [None, None, None, None, Some("cfg(unix)"), Some("cfg(windows)"), Some("x86_64-unknown-linux-gnu"), Some("cfg(not(target_arch = \"wasm32\"))")]
            [u.bits[4] as usize % 8];
        if !tables.insert((m, toml.clone(), table, target)) {
            continue;
        }
        tomls[m].insert(toml.clone(), (u.name.clone(), u.version.clone()));
        let o = &mut t[m];
        let _ = match target {
            Some(k) => writeln!(o, "[target.{}.{table}.{}]", if k.contains('"') { format!("'{k}'") } else { q(k) }, q(&toml)),
            None => writeln!(o, "[{table}.{}]", q(&toml)),
        };
        let v: semver::Version = u.version.parse().unwrap();
        let req = if u.exact {
            format!("={}.{}.{}", v.major, v.minor, v.patch) + &if v.pre.is_empty() { String::new() } else { format!("-{}", v.pre) }
        } else if v.pre.is_empty() {
            if v.major > 0 { v.major.to_string() } else if v.minor > 0 { format!("0.{}", v.minor) } else { v.to_string() }
        } else {
            v.to_string()
        };
        let _ = writeln!(o, "version = {}\npackage = {}", q(&req), q(&u.name));
        let _ = writeln!(o, "features = [{}]", u.features.iter().map(|f| q(f)).collect::<Vec<_>>().join(", "));
        if u.bits[2] % 3 == 0 {
            o.push_str("default-features = false\n");
        }
        let optional = u.bits[1] % 3 == 0 && table != "dev-dependencies";
        if optional {
            o.push_str("optional = true\n");
        }
        for (f, how, which) in &u.own {
            let l = feats[m].entry(format!("f{}", f % 3)).or_default();
            let known = known().iter().find(|k| k.name == u.name && k.version == u.version);
            let feature = known.filter(|k| !k.features.is_empty()).map(|k| &k.features[*which as usize % k.features.len()]);
            match (how % 3, feature) {
                (0, _) if optional => l.push(format!("dep:{toml}")),
                (1, Some(x)) if optional => l.push(format!("{toml}?/{x}")),
                (_, Some(x)) => l.push(format!("{toml}/{x}")),
                _ => l.push("f0".to_owned()),
            }
        }
    }
    for (m, f) in feats.iter_mut().enumerate() {
        f.entry("f0".to_owned()).or_default().retain(|e| e != "f0");
        let mut o = String::from("[features]\n");
        for (n, l) in f.iter_mut() {
            l.sort();
            l.dedup();
            l.retain(|e| e != n);
            let _ = writeln!(o, "{n} = [{}]", l.iter().map(|e| q(e)).collect::<Vec<_>>().join(", "));
        }
        t[m].push_str(&o);
    }
    let package = |n: &str| format!("[package]\nname = \"{n}\"\nversion = \"0.1.0\"\nedition = \"2021\"\nbuild = \"build.rs\"\n");
    let [a, b] = t;
    let link = match g.flags / 8 % 3 {
        0 => "",
        1 => "[dependencies.kv-other]\npath = \"other\"\n",
        _ => "[dependencies.kv-other]\npath = \"other\"\nfeatures = [\"f0\"]\n",
    };
    let own: Vec<String> = feats[0].keys().cloned().collect();
    (package("kv-root") + "[workspace]\nmembers = [\"other\"]\nresolver = \"1\"\n" + &a + link, package("kv-other") + &b, own)
}

/// Crates of crates.io, as far as they are on this machine
fn crates_io(g: &RegG, cx: &mut Cx) -> R {
    static N: AtomicU64 = AtomicU64::new(0);
    if known().len() < 20 {
        cx.label("no crates on this machine");
        return Ok(());
    }
    let base = cx.scratch.join(format!("reg-{}", N.fetch_add(1, Ordering::Relaxed))).to_str().unwrap().to_owned();
    let project = Project { root: format!("{base}/ws"), base };
    let (root, other, own) = manifests(g);
    write(&format!("{}/Cargo.toml", project.root), &root);
    write(&format!("{}/other/Cargo.toml", project.root), &other);
    for d in ["", "/other"] {
        write(&format!("{}{d}/src/lib.rs", project.root), "");
        write(&format!("{}{d}/build.rs", project.root), "fn main() {}");
    }
    let mut cmd = krates::Cmd::new();
    let args = match g.flags % 4 {
        0 => vec![],
        1 => {
            cmd.all_features();
            vec!["--all-features".to_owned()]
        }
        2 => {
            cmd.no_default_features();
            vec!["--no-default-features".to_owned()]
        }
        _ => {
            cmd.features(own.clone());
            vec!["--features".to_owned(), own.join(",")]
        }
    };
    let cargo = Cargo { dir: project.root.clone(), home: reg_home(&cx.scratch), args };
    let Some(md) = cargo.document(cmd, cx)? else { return Ok(()) };
    let alone = g.flags & 64 == 0;
    judge_confs(&md, &g.conf, alone, &project.root, cx)?;
    let n = md.packages.len();
    let whole = cargo.judge(&md, alone, g.without, cx)?;
    cx.label_if(whole.is_none(), "judged by the model alone");
    cx.nontrivial_if(n >= 6);
    cx.sample(|| {
        json!({"uses": g.uses.iter().map(|u| format!("{} {} {:?}", u.name, u.version, u.features)).collect::<Vec<_>>(),
            "packages": n, "flags": cargo.args, "configurations": 1 + g.conf.len()})
    });
    Ok(())
}

/// The references the repositories have
const REFS: [&str; 6] = ["", "branch = \"feat/x+y\"", "tag = \"v1.0.0\"", "branch = \"main\"", "rev = \"refs/heads/feat/x+y\"", "branch = \"fix#1\u{fc}\""];

/// The packages in the repositories: repository, name, directory
const IN_GIT: [(usize, &str, &str); 5] = [(0, "ga", ""), (0, "ga-sub", "sub"), (0, "ga-derive", "de rive"), (1, "gb", ""), (1, "gb_sub", "crates/gb_sub")];

/// A package of a git repository, as it is used
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct GitUse {
    which: u8,
    at: u8,
    /// kind, optional, without default features, renamed, for which target
    bits: [u8; 5],
    features: u8,
    /// entries of own features
    own: Vec<(u8, u8)>,
    member: u8,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct GitG {
    uses: Vec<GitUse>,
    flags: u8,
    without: u8,
    /// a package replaced with a directory, or one of the other repository
    patch: u8,
    conf: Vec<crate::conf::ConfG>,
}

fn git_g() -> BoxedStrategy<GitG> {
    let one = (any::<u8>(), any::<u8>(), any::<[u8; 5]>(), any::<u8>(), proptest::collection::vec(any::<(u8, u8)>(), 0..4), any::<u8>())
        .prop_map(|(which, at, bits, features, own, member)| GitUse { which, at, bits, features, own, member });
    (proptest::collection::vec(one, 1..7), any::<u8>(), any::<u8>(), any::<u8>(), proptest::collection::vec(crate::conf::conf_g(), 4))
        .prop_map(|(uses, flags, without, patch, conf)| GitG { uses, flags, without, patch, conf })
        .boxed()
}

/// The urls of the repositories, made once for a run, if there is a git
fn repositories(scratch: &Path) -> Option<&'static [String; 2]> {
    static P: OnceLock<Option<[String; 2]>> = OnceLock::new();
    P.get_or_init(|| {
        let dirs = [scratch.join("git/ga.git"), scratch.join("git/g b")];
        let url = |i: usize| format!("file://{}", dirs[i].to_str().unwrap().replace(' ', "%20"));
        let git = |i: usize, args: &[&str]| {
            let out = Command::new("git")
                .current_dir(&dirs[i])
                .env("HOME", &dirs[i])
                .env("GIT_CONFIG_NOSYSTEM", "1")
                .args(["-c", "user.name=kv", "-c", "user.email=kv@kv", "-c", "init.defaultBranch=main", "-c", "commit.gpgsign=false"])
                .args(args)
                .output();
            out.is_ok_and(|o| o.status.success())
        };
        let crates = |i: usize, v: &str, more: &str| {
            let d = dirs[i].to_str().unwrap();
            let head = |n: &str| format!("[package]\nname = \"{n}\"\nversion = \"{v}\"\nedition = \"2021\"\nautobins = false\n");
            if i == 0 {
                write(
                    &format!("{d}/Cargo.toml"),
                    &(head("ga")
                        + "[dependencies]\nga-sub = { path = \"sub\", optional = true }\nga-derive = { path = \"de rive\", default-features = false }\n[target.'cfg(windows)'.dependencies]\nwin = { path = \"win\", package = \"ga-win\" }\n[features]\ndefault = [\"f0\"]\nf0 = []\nf1 = [\"ga-sub?/f0\", \"ga-derive/f1\"]\nf2 = [\"dep:ga-sub\"]\n"
                        + more),
                );
                write(&format!("{d}/sub/Cargo.toml"), &(head("ga-sub") + "[lib]\nname = \"other_name\"\n[features]\nf0 = []\nf1 = [\"f0\"]\nf2 = []\n"));
                write(
                    &format!("{d}/de rive/Cargo.toml"),
                    &(head("ga-derive") + "[lib]\nproc-macro = true\n[features]\ndefault = [\"f2\"]\nf0 = []\nf1 = []\nf2 = []\n[dev-dependencies]\nga = { path = \"..\" }\n"),
                );
                write(&format!("{d}/win/Cargo.toml"), &head("ga-win"));
                for p in ["", "/sub", "/de rive", "/win"] {
                    write(&format!("{d}{p}/src/lib.rs"), "");
                }
            } else {
                // one that is itself a workspace, and has one from the other repository
                write(
                    &format!("{d}/Cargo.toml"),
                    &(head("gb")
                        + &format!("[workspace]\nmembers = [\"crates/*\"]\n[dependencies]\nga = {{ git = \"{}\"{more}, optional = true, features = [\"f1\"] }}\n[build-dependencies]\ngb_sub = {{ path = \"crates/gb_sub\" }}\n[features]\nf0 = [\"{}ga\"]\nf1 = [\"ga?/f2\"]\nf2 = [\"ga/f2\", \"gb_sub/f1\"]\n", url(0), if more.contains('x') { "" } else { "dep:" })),
                );
                write(&format!("{d}/build.rs"), "fn main() {}");
                write(&format!("{d}/crates/gb_sub/Cargo.toml"), &(head("gb_sub") + "[features]\nf0 = []\nf1 = []\nf2 = [\"f1\"]\n"));
                for p in ["", "/crates/gb_sub"] {
                    write(&format!("{d}{p}/src/lib.rs"), "");
                }
            }
        };
        for i in 0..2 {
            std::fs::create_dir_all(&dirs[i]).expect("harness: directory");
            let commit = |m: &str| git(i, &["add", "."]) && git(i, &["commit", "-q", "-m", m]);
            crates(i, "1.0.0", "");
            let mut ok = git(i, &["init", "-q", "."]) && commit("one") && git(i, &["branch", "-M", "main"]) && git(i, &["tag", "v1.0.0"]);
            ok = ok && git(i, &["checkout", "-q", "-b", "feat/x+y"]);
            crates(i, "1.1.0", if i == 0 { "f3 = [\"f2\"]\n" } else { ", branch = \"feat/x+y\"" });
            ok = ok && commit("two") && git(i, &["checkout", "-q", "-b", "fix#1\u{fc}"]);
            crates(i, "1.1.0", if i == 0 { "ga-sub = [\"dep:ga-sub\", \"f1\"]\n" } else { ", tag = \"v1.0.0\"" });
            ok = ok && commit("three") && git(i, &["checkout", "-q", "main"]);
            crates(i, "2.0.0", if i == 0 { "x = []\n" } else { "" });
            if !(ok && commit("four")) {
                return None;
            }
        }
        Some([url(0), url(1)])
    })
    .as_ref()
}

/// A reference, in TOML
fn git_ref(at: u8) -> String {
    match REFS[at as usize % REFS.len()] {
        "" => String::new(),
        r => format!(", {r}"),
    }
}

/// A CARGO_HOME of this thread that has the repositories
fn git_home(scratch: &Path, urls: &[String; 2]) -> Option<String> {
    thread_local!(static HOME: std::cell::OnceCell<Option<String>> = const { std::cell::OnceCell::new() });
    static N: AtomicU64 = AtomicU64::new(0);
    HOME.with(|h| {
        h.get_or_init(|| {
            let base = scratch.join(format!("git-home-{}", N.fetch_add(1, Ordering::Relaxed))).to_str().unwrap().to_owned();
            let mut t = String::from("[package]\nname = \"all\"\nversion = \"0.1.0\"\nedition = \"2021\"\n[dependencies]\n");
            for at in 0..REFS.len() as u8 {
                for r in [0, 3] {
                    let (u, n, _) = IN_GIT[r];
                    let _ = writeln!(t, "r{r}-{at} = {{ package = \"{n}\", git = \"{}\"{} }}", urls[u], git_ref(at));
                }
            }
            write(&format!("{base}/ws/Cargo.toml"), &t);
            write(&format!("{base}/ws/src/lib.rs"), "");
            write(&format!("{base}/home/config.toml"), "[net]\noffline = false\n");
            let out = Command::new(cargo())
                .current_dir(format!("{base}/ws"))
                .env("CARGO_HOME", format!("{base}/home"))
                .env("CARGO_NET_OFFLINE", "false")
                .env_remove("RUSTUP_TOOLCHAIN")
                .args(["metadata", "--format-version", "1"])
                .output()
                .expect("harness: cargo");
            if std::env::var_os("KV_SHOW").is_some() {
                eprintln!("{}", String::from_utf8_lossy(&out.stderr));
            }
            out.status.success().then(|| format!("{base}/home"))
        })
        .clone()
    })
}

/// The manifests of the members: root, and two more
fn git_manifests(g: &GitG, urls: &[String; 2]) -> [String; 3] {
    let mut t = [String::new(), String::new(), String::new()];
    let mut feats: [BTreeMap<String, Vec<String>>; 3] = Default::default();
    let mut tomls: [BTreeMap<String, (usize, u8)>; 3] = Default::default();
    let mut tables: BTreeSet<(usize, String, &str, Option<&str>)> = BTreeSet::new();
    for u in &g.uses {
        let m = u.member as usize % 3;
        let which = u.which as usize % IN_GIT.len();
        let at = u.at % REFS.len() as u8;
        let (r, name, _) = IN_GIT[which];
        let toml = match u.bits[3] % 4 {
            0 => format!("{name}-{at}"),
            1 => format!("re_{at}_{name}"),
            _ => name.to_owned(),
        };
        if tomls[m].iter().any(|(n, p)| (*n == toml) != (*p == (which, at))) {
            continue;
        }
        let table = match u.bits[0] % 6 {
            4 => "dev-dependencies",
            5 => "build-dependencies",
            _ => "dependencies",
        };
        let target = [None, None, None, None, Some("cfg(unix)"), Some("cfg(windows)"), Some("x86_64-unknown-linux-gnu"), Some("cfg(not(target_arch = \"wasm32\"))")]
            [u.bits[4] as usize % 8];
        if !tables.insert((m, toml.clone(), table, target)) {
            continue;
        }
        tomls[m].insert(toml.clone(), (which, at));
        let o = &mut t[m];
        let _ = match target {
            Some(k) => writeln!(o, "[target.{}.{table}]", if k.contains('"') { format!("'{k}'") } else { q(k) }),
            None => writeln!(o, "[{table}]"),
        };
        // the same table may be there already: one line each, with dotted keys
        o.truncate(o.trim_end().len() - 1);
        let _ = writeln!(o, ".{}]", q(&toml));
        let _ = writeln!(o, "package = {}\ngit = {}", q(name), q(&urls[r]));
        o.push_str(git_ref(at).trim_start_matches(", "));
        o.push('\n');
        let features: Vec<_> = (0..3).filter(|i| u.features >> i & 5 == 5).map(|i| format!("\"f{i}\"")).collect();
        let _ = writeln!(o, "features = [{}]", features.join(", "));
        if u.bits[2] % 3 == 0 {
            o.push_str("default-features = false\n");
        }
        if u.bits[2] % 5 == 0 {
            o.push_str("version = \">=1\"\n");
        }
        let optional = u.bits[1] % 3 == 0 && table != "dev-dependencies";
        if optional {
            o.push_str("optional = true\n");
        }
        for (f, how) in &u.own {
            let l = feats[m].entry(format!("f{}", f % 3)).or_default();
            let x = f / 3 % 3;
            match how % 3 {
                0 if optional => l.push(format!("dep:{toml}")),
                1 if optional => l.push(format!("{toml}?/f{x}")),
                _ => l.push(format!("{toml}/f{x}")),
            }
        }
    }
    for (m, f) in feats.iter_mut().enumerate() {
        f.entry("f0".to_owned()).or_default();
        let mut o = String::from("[features]\n");
        for (n, l) in f.iter_mut() {
            l.sort();
            l.dedup();
            let _ = writeln!(o, "{n} = [{}]", l.iter().map(|e| q(e)).collect::<Vec<_>>().join(", "));
        }
        t[m].push_str(&o);
    }
    let package = |n: &str| format!("[package]\nname = \"{n}\"\nversion = \"0.1.0\"\nedition = \"2021\"\nbuild = \"build.rs\"\n");
    let [a, b, c] = t;
    let link = match g.flags / 8 % 3 {
        0 => "",
        1 => "[dependencies.kv-other]\npath = \"other\"\n",
        _ => "[dependencies.kv-other]\npath = \"other\"\nfeatures = [\"f0\"]\n",
    };
    let patch = match g.patch % 8 {
        0 => format!("[patch.{}]\nga-sub = {{ path = \"here\" }}\n", q(&urls[0])),
        1 => format!("[patch.{}]\ngb = {{ path = \"here\" }}\n", q(&urls[1])),
        2 => format!("[patch.{}]\nga = {{ path = \"here\" }}\n", q(&urls[0])),
        _ => String::new(),
    };
    [
        package("kv-root") + "[workspace]\nmembers = [\"other\", \"third\"]\nexclude = [\"here\"]\nresolver = \"1\"\n" + &a + link + &patch,
        package("kv-other") + &b,
        package("kv-third") + &c,
    ]
}

/// Packages of git repositories, at several references
fn git(g: &GitG, cx: &mut Cx) -> R {
    static N: AtomicU64 = AtomicU64::new(0);
    let Some(urls) = repositories(&cx.scratch) else {
        cx.label("no git on this machine");
        return Ok(());
    };
    let Some(home) = git_home(&cx.scratch, urls) else {
        cx.label("cargo cannot fetch from a directory");
        return Ok(());
    };
    let base = cx.scratch.join(format!("gits-{}", N.fetch_add(1, Ordering::Relaxed))).to_str().unwrap().to_owned();
    let project = Project { root: format!("{base}/ws"), base };
    for (d, t) in ["", "/other", "/third"].iter().zip(git_manifests(g, urls)) {
        write(&format!("{}{d}/Cargo.toml", project.root), &t);
        write(&format!("{}{d}/src/lib.rs", project.root), "");
        write(&format!("{}{d}/build.rs", project.root), "fn main() {}");
    }
    let here = ["ga-sub", "gb", "ga"][g.patch as usize % 8 % 3];
    write(
        &format!("{}/here/Cargo.toml", project.root),
        &format!("[package]\nname = \"{here}\"\nversion = \"1.2.0\"\nedition = \"2021\"\n[features]\nf0 = []\nf1 = [\"f2\"]\nf2 = []\n"),
    );
    write(&format!("{}/here/src/lib.rs", project.root), "");
    let mut cmd = krates::Cmd::new();
    let args = match g.flags % 4 {
        0 => vec![],
        1 => {
            cmd.all_features();
            vec!["--all-features".to_owned()]
        }
        2 => {
            cmd.no_default_features();
            vec!["--no-default-features".to_owned()]
        }
        _ => {
            cmd.features(["f0".to_owned()]);
            vec!["--features".to_owned(), "f0".to_owned()]
        }
    };
    let cargo = Cargo { dir: project.root.clone(), home, args };
    let Some(md) = cargo.document(cmd, cx)? else { return Ok(()) };
    let alone = g.flags & 64 == 0;
    judge_confs(&md, &g.conf, alone, &project.root, cx)?;
    let whole = cargo.judge(&md, alone, g.without, cx)?;
    cx.label_if(whole.is_none(), "judged by the model alone");
    let gits: Vec<_> = md.packages.iter().filter(|p| p.id.repr.starts_with("git+")).collect();
    let names: BTreeSet<_> = gits.iter().map(|p| &p.name).collect();
    cx.label_if(gits.len() > names.len(), "one package at two references");
    cx.label_if(gits.iter().any(|a| gits.iter().any(|b| a.id != b.id && (&a.name, &a.version) == (&b.name, &b.version))), "one name and version at two references");
    cx.label_if(gits.iter().any(|p| p.id.repr.contains('%')), "encoded reference");
    cx.label_if(md.packages.iter().any(|p| p.source.is_none() && p.manifest_path.as_str().contains("/here/")), "patched");
    cx.nontrivial_if(gits.len() >= 2);
    cx.sample(|| {
        json!({"packages": md.packages.iter().map(|p| p.id.repr.rsplit('/').next().unwrap().to_owned()).collect::<Vec<_>>(), "flags": cargo.args})
    });
    Ok(())
}

/// Several configurations of a document against the model
fn judge_confs(md: &cm::Metadata, g: &[crate::conf::ConfG], alone: bool, root: &str, cx: &mut Cx) -> R {
    let n = md.packages.len();
    let mut confs = vec![crate::model::Conf { workspace: !alone, ..Default::default() }];
    confs.extend(g.iter().map(|c| crate::model::Conf {
        targets: crate::conf::decode_targets(&c.targets),
        ignore: crate::conf::decode_ignore(&c.ignore),
        exclude: c
            .exclude
            .iter()
            .map(|(i, f)| {
                let p = &md.packages[(*i as usize * 256 + *f as usize) % n];
                let url = p.source.as_ref().map_or("https://github.com/rust-lang/crates.io-index", |s| {
                    let s = s.repr.split_once('+').map_or("", |s| s.1);
                    s.split(['?', '#']).next().unwrap()
                });
                match f % 3 {
                    0 => p.name.clone(),
                    1 => format!("{}@{}", p.name, p.version),
                    _ => format!("{url}#{}@{}", p.name, p.version),
                }
            })
            .collect(),
        workspace: c.workspace,
        include: c.include.iter().map(|b| format!("{root}{}", ["/other", "/other/Cargo.toml"][*b as usize % 2])).collect(),
        ..Default::default()
    }));
    for (i, conf) in confs.iter().enumerate() {
        let case = (|| {
            let Some(c) = crate::core::prepare(md.clone(), conf, cx)? else { return Ok(()) };
            c.crates()?;
            c.features()?;
            c.links()?;
            c.toggled()?;
            if i > 0 {
                c.classify(cx);
            }
            Ok(())
        })();
        case.map_err(|e: String| format!("with {conf:?}: {e}"))?;
    }
    Ok(())
}

/// The packages of a graph, as a document
fn copy(k: &crate::core::K) -> cm::Metadata {
    cm::Metadata {
        packages: k.krates().cloned().collect(),
        workspace_members: vec![],
        workspace_default_members: cm::WorkspaceDefaultMembers(None),
        resolve: None,
        workspace_root: "/".into(),
        target_directory: "/".into(),
        workspace_metadata: serde_json::Value::Null,
        version: 1,
    }
}

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C26",
        rule: "Worlds written to disk as projects: members, path packages outside, patches, and three registries as directories, in a scratch directory with a CARGO_HOME of its own; a few of the feature flags. The document the real cargo prints is read through the crate's own command, must come out the same when written again, and the graph built from it must have the packages, links with their kinds, and enabled features that `cargo tree` lists (a part of them when kinds or targets are left out, as cargo does not take features back). Second part: random uses of the crates.io crates on this machine; five configurations of each document also against the model. Non-trivial: at least two links and a feature; at least six packages.",
        assumptions: &[
            "the installed cargo is right about its own resolution; resolver 1, edition 2018, no git repositories (they would have to be fetched)",
            "crates of ~/.cargo/registry, as many as there are, for the second part",
            "projects cargo itself refuses are passed over (label `refused by cargo`)",
        ],
        parts: vec![part("real", 2_500, 100_000, real_g, real), part("crates.io", 2_000, 60_000, reg_g, crates_io), part("git", 800, 40_000, git_g, git)],
    }]
}
