//! C18 and C19: the cargo command, and what becomes of its output

use super::filters::dump;
use super::json::document;
use crate::runner::*;
use crate::world::{self, World, WorldG};
use krates::{Cmd, LockOptions, cm};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use serde_json::json;
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
enum Op {
    Cargo(String),
    Manifest(String),
    Dir(String),
    NoDefault,
    All,
    Feats(Vec<String>),
    Lock(bool, bool, bool),
    Other(Vec<String>),
    NoDeps,
    Env(String, String),
    Verbose(bool),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct CmdG {
    /// `Cmd`, or `MetadataCommand` itself
    plain: bool,
    ops: Vec<Op>,
}

fn op_g() -> BoxedStrategy<Op> {
    let path = prop_oneof![
        3 => "(/?[a-z .é-]{1,5})(/[a-z0-9 -]{1,5}){0,3}",
        1 => prop::sample::select(vec!["cargo", "./cargo", "/usr/bin/cargo", "/opt/my tools/cargo", "../x"]).prop_map(str::to_owned),
    ];
    let dir = prop_oneof![4 => "/?[a-z. ]{1,4}(/[a-zé0-9 ._-]{1,6}){0,3}", 1 => Just(String::new()), 1 => Just("/".to_owned()), 1 => Just("..".to_owned())];
    let feat = prop_oneof![
        3 => prop::sample::select(vec!["a", "b", "default", "std", "foo/bar", "f-1", "foo?/x"]).prop_map(str::to_owned),
        1 => "[a-z_][a-z0-9_+.-]{0,4}",
    ];
    let other = prop_oneof![
        3 => prop::sample::select(vec!["--filter-platform", "x86_64-unknown-linux-gnu", "-v", "--config", "net.offline=true", "-Zfoo", "--color=never", "--features", "late", "--locked"]).prop_map(str::to_owned),
        1 => "\\PC{0,6}",
    ];
    prop_oneof![
        1 => path.prop_map(Op::Cargo),
        2 => dir.clone().prop_map(|d| Op::Manifest(if d.is_empty() { "Cargo.toml".to_owned() } else if d == "/" { "/Cargo.toml".to_owned() } else { format!("{d}/Cargo.toml") })),
        2 => dir.prop_map(Op::Dir),
        2 => Just(Op::NoDefault),
        2 => Just(Op::All),
        4 => vec(feat, 0..5).prop_map(Op::Feats),
        3 => any::<(bool, bool, bool)>().prop_map(|(a, b, c)| Op::Lock(a, b, c)),
        3 => vec(other, 0..4).prop_map(Op::Other),
        1 => Just(Op::NoDeps),
        1 => ("[A-Z]{1,3}", "\\PC{0,5}").prop_map(|(k, v)| Op::Env(k, v)),
        1 => any::<bool>().prop_map(Op::Verbose),
    ]
    .boxed()
}

fn cmd_g() -> BoxedStrategy<CmdG> {
    (any::<bool>(), vec(op_g(), 0..10)).prop_map(|(plain, ops)| CmdG { plain, ops }).boxed()
}

/// What a sequence of calls asks for
#[derive(Debug, Default)]
struct Want {
    cargo: Option<String>,
    manifest: Option<String>,
    dir: Option<String>,
    no_default: bool,
    all: bool,
    feats: Vec<String>,
    frozen: bool,
    locked: bool,
    offline: bool,
    other: Vec<String>,
    no_deps: bool,
    env: BTreeMap<String, String>,
}

fn make(g: &CmdG, w: &mut Want) -> cm::MetadataCommand {
    let mut cmd = Cmd::new();
    let mut mdc = cm::MetadataCommand::new();
    let mut others = 0;
    for op in &g.ops {
        match op {
            Op::Cargo(p) => {
                w.cargo = Some(p.clone());
                cmd.cargo_path(p);
                mdc.cargo_path(p);
            }
            Op::Manifest(p) => {
                w.manifest = Some(p.clone());
                cmd.manifest_path(p);
                mdc.manifest_path(p);
            }
            Op::Dir(p) => {
                if g.plain && p.is_empty() {
                    continue;
                }
                w.dir = Some(p.clone());
                cmd.current_dir(p);
                mdc.current_dir(p);
            }
            // what the plain command takes for these cannot be named outside
            Op::NoDefault if !g.plain => {
                w.no_default = true;
                cmd.no_default_features();
            }
            Op::All if !g.plain => {
                w.all = true;
                cmd.all_features();
            }
            Op::Feats(f) if !g.plain => {
                w.feats.extend(f.iter().cloned());
                cmd.features(f.clone());
            }
            Op::Lock(f, l, o) if !g.plain => {
                (w.frozen, w.locked, w.offline) = (*f, *l, *o);
                cmd.lock_opts(LockOptions { frozen: *f, locked: *l, offline: *o });
            }
            Op::Other(o) => {
                // the documentation of the plain command leaves open what a
                // second call does
                if !(g.plain && others > 0) {
                    others += 1;
                    w.other.extend(o.iter().cloned());
                    cmd.other_options(o.clone());
                    mdc.other_options(o.clone());
                }
            }
            Op::NoDeps if g.plain => {
                w.no_deps = true;
                mdc.no_deps();
            }
            Op::Env(k, v) if g.plain => {
                w.env.insert(k.clone(), v.clone());
                mdc.env(k, v);
            }
            Op::Verbose(v) if g.plain => {
                mdc.verbose(*v);
            }
            _ => {}
        }
    }
    if g.plain { mdc } else { cmd.into() }
}

/// The arguments taken apart as cargo would; `None` for what it would refuse
fn understand(args: &[String], other: &[String]) -> Result<(BTreeMap<&'static str, usize>, BTreeMap<&'static str, Vec<String>>), String> {
    let own = args
        .strip_suffix(other)
        .ok_or_else(|| format!("the arguments {args:?} do not end with the other options {other:?}"))?;
    let Some(("metadata", rest)) = own.split_first().map(|(a, b)| (a.as_str(), b)) else {
        return Err(format!("{args:?} is not `cargo metadata`"));
    };
    let mut flags: BTreeMap<&'static str, usize> = BTreeMap::new();
    let mut values: BTreeMap<&'static str, Vec<String>> = BTreeMap::new();
    let mut it = rest.iter();
    'args: while let Some(a) = it.next() {
        for f in ["--no-deps", "--all-features", "--no-default-features", "--frozen", "--locked", "--offline"] {
            if a == f {
                *flags.entry(f).or_default() += 1;
                continue 'args;
            }
        }
        for (v, short) in [("--format-version", ""), ("--features", "-F"), ("--manifest-path", "")] {
            if a == v || (!short.is_empty() && a == short) {
                let x = it.next().ok_or_else(|| format!("{v} lacks its value: {args:?}"))?;
                values.entry(v).or_default().push(x.clone());
                continue 'args;
            }
            if let Some(x) = a.strip_prefix(v).and_then(|a| a.strip_prefix('=')) {
                values.entry(v).or_default().push(x.to_owned());
                continue 'args;
            }
        }
        return Err(format!("{a:?} was not asked for: {args:?}"));
    }
    Ok((flags, values))
}

fn verify(w: &Want, plain: bool, c: &std::process::Command, default: &str) -> R {
    let program = c.get_program().to_str().unwrap();
    if program != w.cargo.as_deref().unwrap_or(default) {
        return Err(format!("the program is {program:?}, not {:?}", w.cargo.as_deref().unwrap_or(default)));
    }
    let args: Vec<String> = c.get_args().map(|a| a.to_str().unwrap().to_owned()).collect();
    let (flags, mut values) = understand(&args, &w.other)?;
    for (f, on) in [
        ("--no-deps", w.no_deps),
        ("--all-features", w.all),
        ("--no-default-features", w.no_default),
        ("--frozen", w.frozen),
        ("--locked", w.locked),
        ("--offline", w.offline),
    ] {
        let n = flags.get(f).copied().unwrap_or(0);
        // cargo refuses a flag that is given twice
        if n != usize::from(on) {
            return Err(format!("{f} is there {n} times, it is {}asked for: {args:?}", if on { "" } else { "not " }));
        }
    }
    if values.remove("--format-version") != Some(vec!["1".to_owned()]) {
        return Err(format!("the format is not version 1, once: {args:?}"));
    }
    let feats = values.remove("--features").unwrap_or_default();
    let got: Vec<String> = feats.iter().flat_map(|f| f.split([' ', ','])).filter(|f| !f.is_empty()).map(str::to_owned).collect();
    let want: BTreeSet<&String> = w.feats.iter().collect();
    if got.iter().collect::<BTreeSet<_>>() != want || got.len() != want.len() {
        return Err(format!("the features are {got:?}, asked for were {:?}", w.feats));
    }
    if !got.is_sorted() {
        return Err(format!("the features {got:?} are in no order"));
    }
    let dir = c.get_current_dir();
    let manifest = values.remove("--manifest-path");
    if manifest.as_ref().is_some_and(|m| m.len() > 1) {
        return Err(format!("more than one manifest path: {args:?}"));
    }
    let manifest = manifest.map(|mut m| m.remove(0));
    let base = |d: Option<&Path>| d.unwrap_or(Path::new("")).to_owned();
    // without the `.` that stands for the directory we are in
    let plain_dir = |d: PathBuf| if d == Path::new(".") { PathBuf::new() } else { d };
    match (&w.manifest, plain) {
        (Some(m), false) => {
            let parent = Path::new(m).parent().unwrap();
            let d = plain_dir(base(dir));
            if d != plain_dir(parent.to_owned()) {
                return Err(format!("the manifest is {m:?}, but cargo runs in {dir:?}"));
            }
            let Some(p) = manifest else { return Err(format!("the manifest {m:?} is not passed on: {args:?}")) };
            // relative to where cargo runs, it is the manifest
            let lexical = |p: &Path| p.components().filter(|c| *c != std::path::Component::CurDir).collect::<PathBuf>();
            if lexical(&d.join(&p)) != lexical(Path::new(m)) {
                return Err(format!("the manifest {m:?} is passed on as {p:?} in {dir:?}"));
            }
        }
        (m, _) => {
            if manifest != *m {
                return Err(format!("the manifest is {m:?}, passed on is {manifest:?}"));
            }
            let want = w.dir.as_ref().map(PathBuf::from).unwrap_or_default();
            if plain_dir(base(dir)) != plain_dir(want) {
                return Err(format!("cargo runs in {dir:?}, not {:?}", w.dir));
            }
            // an empty directory cannot be entered
            if dir.is_some_and(|d| d.as_os_str().is_empty()) {
                return Err("cargo is to run in an empty directory".to_owned());
            }
        }
    }
    let env: BTreeMap<String, String> = c
        .get_envs()
        .map(|(k, v)| (k.to_str().unwrap().to_owned(), v.map_or("(removed)".to_owned(), |v| v.to_str().unwrap().to_owned())))
        .collect();
    if env != w.env {
        return Err(format!("the environment is {env:?}, not {:?}", w.env));
    }
    Ok(())
}

fn c18(g: &CmdG, cx: &mut Cx) -> R {
    let mut w = Want::default();
    let mdc = guard(|| make(g, &mut w))?;
    let default = std::env::var("CARGO").unwrap_or_else(|_| "cargo".to_owned());
    verify(&w, g.plain, &mdc.cargo_command(), &default)?;
    // once more, and of a copy
    verify(&w, g.plain, &mdc.cargo_command(), &default)?;
    let copy = mdc.clone();
    verify(&w, g.plain, &copy.cargo_command(), &default)?;
    cx.label(if g.plain { "plain command" } else { "command" });
    cx.label_if(!w.feats.is_empty(), "features");
    cx.label_if(w.feats.iter().collect::<BTreeSet<_>>().len() < w.feats.len(), "features twice");
    cx.label_if(w.manifest.is_some() && w.dir.is_some(), "manifest and directory");
    cx.label_if(g.ops.iter().filter(|o| matches!(o, Op::Lock(..))).count() > 1, "lock options twice");
    cx.label_if(!w.other.is_empty(), "other options");
    cx.nontrivial_if(g.ops.len() > 2);
    cx.sample(|| json!({"calls": g.ops, "command": format!("{:?}", copy.cargo_command())}));
    Ok(())
}

// ---- the program, which the environment decides

#[derive(Clone, Debug, Serialize, Deserialize)]
struct EnvG {
    cargo: Option<String>,
    path: Option<String>,
}

fn env_g() -> BoxedStrategy<EnvG> {
    let p = || "(/[a-z ]{1,5}){0,2}/?[a-zé]{1,8}";
    (prop::option::weighted(0.7, p()), prop::option::weighted(0.3, p())).prop_map(|(cargo, path)| EnvG { cargo, path }).boxed()
}

fn c18_env(g: &EnvG, cx: &mut Cx) -> R {
    let mut c = std::process::Command::new(std::env::current_exe().unwrap());
    c.arg("print-program").env_remove("CARGO").env_remove("KV_FAKE");
    if let Some(v) = &g.cargo {
        c.env("CARGO", v);
    }
    if let Some(p) = &g.path {
        c.arg(p);
    }
    let o = c.output().map_err(|e| format!("harness: {e}"))?;
    if !o.status.success() {
        return Err(format!("with {g:?}: {}", String::from_utf8_lossy(&o.stderr)));
    }
    let want = g.path.as_deref().or(g.cargo.as_deref()).unwrap_or("cargo");
    let got = String::from_utf8_lossy(&o.stdout);
    if got != want {
        return Err(format!("with the path {:?} and the environment variable {:?} the program is {got:?}", g.path, g.cargo));
    }
    cx.nontrivial_if(g.cargo.is_some());
    cx.sample(|| json!(g));
    Ok(())
}

/// Runs of this program as somebody else's child process
pub fn child(args: &[String]) -> Option<i32> {
    use std::io::Write;
    if let Some(dir) = std::env::var_os("KV_FAKE") {
        // stands in for cargo: tells how it was called, and says what it is told to
        let dir = PathBuf::from(dir);
        let call = json!({
            "args": args[1..],
            "cwd": std::env::current_dir().unwrap(),
            "env": std::env::var("KV_VALUE").ok(),
        });
        std::fs::write(dir.join("call"), call.to_string()).unwrap();
        let read = |n: &str| std::fs::read(dir.join(n)).unwrap_or_default();
        let code: i32 = String::from_utf8(read("code")).unwrap().parse().unwrap();
        // both at once, as neither may have to wait for the other
        let err = read("stderr");
        let t = std::thread::spawn(move || {
            let _ = std::io::stderr().write_all(&err);
        });
        let _ = std::io::stdout().write_all(&read("stdout"));
        let _ = std::io::stdout().flush();
        t.join().unwrap();
        if code < 0 {
            // killed by a signal: one nobody handles
            std::process::abort();
        }
        return Some(code);
    }
    if args.get(1).map(String::as_str) == Some("print-program") {
        let mut mdc = cm::MetadataCommand::new();
        if let Some(p) = args.get(2) {
            mdc.cargo_path(p);
        }
        print!("{}", mdc.cargo_command().get_program().to_str().unwrap());
        return Some(0);
    }
    None
}

// ---- C19

#[derive(Clone, Debug, Serialize, Deserialize)]
struct ExecG {
    world: WorldG,
    /// what cargo prints
    lines: Vec<(u8, u8)>,
    crlf: bool,
    stderr: (u8, u8),
    code: u8,
    value: String,
    how: u8,
}

fn exec_g() -> BoxedStrategy<ExecG> {
    (
        world::world_sized(1..=4, 3, 3),
        vec(any::<(u8, u8)>(), 0..6),
        prop::bool::weighted(0.2),
        any::<(u8, u8)>(),
        any::<u8>(),
        "[ -~]{0,8}",
        any::<u8>(),
    )
        .prop_map(|(world, lines, crlf, stderr, code, value, how)| ExecG { world, lines, crlf, stderr, code, value, how })
        .boxed()
}

enum Line {
    Doc(String),
    BadDoc(Vec<u8>),
    Noise(Vec<u8>),
}

static SERIAL: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);

fn c19(g: &ExecG, cx: &mut Cx) -> R {
    let w = World::decode(&g.world);
    let md = w.metadata();
    let doc = serde_json::to_string(&md).map_err(|e| format!("harness: {e}"))?;
    let mut bare = md.clone();
    bare.resolve = None;
    let nodeps = serde_json::to_string(&bare).map_err(|e| format!("harness: {e}"))?;

    // the plan of the run
    let mut lines: Vec<Line> = g
        .lines
        .iter()
        .map(|(k, n)| match k % 8 {
            0 => Line::Doc(doc.clone()),
            1 => Line::Doc(nodeps.clone()),
            2 => Line::BadDoc(
                [&b"{"[..], b"{}", b"{\"packages\":[]}", b"{ not json", b"{\"version\":1} trailing", b"{\xc3\xa9}"][*n as usize % 6].to_vec(),
            ),
            3 => Line::Noise(["", " ", "[]", "null", "warning: {", " {\"packages\": []}", "\t{", "}"][*n as usize % 8].into()),
            4 if g.how % 4 == 1 => Line::Noise([&b"\xff\xfe"[..], b"\xc3", b"a\xe2\x82", b"\xed\xa0\x80"][*n as usize % 4].to_vec()),
            5 => Line::Noise("x".repeat(*n as usize * 600).into()),
            6 => Line::Noise("é {".repeat(*n as usize).into()),
            _ => Line::Noise(format!("note: {n}").into()),
        })
        .collect();
    // mostly there is a document somewhere
    if g.how % 5 > 0 && !lines.iter().any(|l| matches!(l, Line::Doc(_) | Line::BadDoc(_))) {
        lines.insert(g.how as usize % (lines.len() + 1), Line::Doc(doc.clone()));
    }
    let end: &[u8] = if g.crlf { b"\r\n" } else { b"\n" };
    let mut stdout = Vec::new();
    for (i, l) in lines.iter().enumerate() {
        match l {
            Line::Doc(d) => stdout.extend_from_slice(d.as_bytes()),
            Line::BadDoc(b) | Line::Noise(b) => stdout.extend_from_slice(b),
        }
        if i + 1 < lines.len() || g.how % 3 > 0 {
            stdout.extend_from_slice(end);
        }
    }
    let stderr: Vec<u8> = match g.stderr.0 % 6 {
        0 => vec![],
        1 => "error: é not found\n{\n".into(),
        2 => b"error: \xff\xfe\n".to_vec(),
        3 => "warning\n".repeat(g.stderr.1 as usize * 120).into(),
        4 => "error: the lock file needs to be updated".into(),
        _ => format!("  \n{}\n\n", g.stderr.1).into(),
    };
    let code: i32 = match g.code % 8 {
        0 => 101,
        1 => 1 + i32::from(g.code / 8),
        2 => -1,
        _ => 0,
    };
    let missing = g.code == 255;

    let dir = cx.scratch.join(format!("exec-{}", SERIAL.fetch_add(1, std::sync::atomic::Ordering::Relaxed)));
    std::fs::create_dir(&dir).map_err(|e| format!("harness: {e}"))?;
    let put = |n: &str, b: &[u8]| std::fs::write(dir.join(n), b).map_err(|e| format!("harness: {e}"));
    put("stdout", &stdout)?;
    put("stderr", &stderr)?;
    put("code", code.to_string().as_bytes())?;

    // the command
    let exe = std::env::current_exe().unwrap();
    let exe = if missing { dir.join("no-such-cargo") } else { exe };
    let sub = dir.join("some dir");
    std::fs::create_dir(&sub).map_err(|e| format!("harness: {e}"))?;
    let mut cmd = Cmd::new();
    cmd.cargo_path(exe).features(["b".to_owned(), "a".to_owned()]).other_options(["--x y".to_owned()]);
    if g.how % 2 == 0 {
        cmd.manifest_path(sub.join("Cargo.toml"));
    } else {
        cmd.current_dir(&sub);
    }
    let mut mdc: cm::MetadataCommand = cmd.into();
    mdc.env("KV_FAKE", &dir).env("KV_VALUE", &g.value);
    if stderr.is_empty() && g.how % 7 == 0 {
        mdc.verbose(true);
    }

    // what has to come out
    #[derive(Debug)]
    enum Out<'a> {
        Io,
        Failed(String),
        ErrUtf8,
        Utf8,
        NoJson,
        Json,
        Doc(&'a str),
    }
    let want = if missing {
        Out::Io
    } else if code != 0 {
        match String::from_utf8(stderr.clone()) {
            Ok(s) => Out::Failed(s),
            Err(_) => Out::ErrUtf8,
        }
    } else if std::str::from_utf8(&stdout).is_err() {
        Out::Utf8
    } else {
        let first = lines.iter().find(|l| match l {
            Line::Doc(_) => true,
            Line::BadDoc(b) | Line::Noise(b) => b.first() == Some(&b'{'),
        });
        match first {
            None => Out::NoJson,
            Some(Line::Doc(d)) => Out::Doc(d),
            Some(_) => Out::Json,
        }
    };
    let check = |got: Result<&cm::Metadata, &cm::Error>| -> R {
        match (&want, got) {
            (Out::Io, Err(cm::Error::Io(_))) => {}
            (Out::Failed(s), Err(e @ cm::Error::CargoMetadata { stderr })) if s == stderr => {
                if !e.to_string().contains(s.as_str()) {
                    return Err(format!("what cargo printed to stderr, {s:?}, is not shown: {e}"));
                }
            }
            (Out::ErrUtf8, Err(cm::Error::ErrUtf8(_))) | (Out::Utf8, Err(cm::Error::Utf8(_))) => {}
            (Out::NoJson, Err(cm::Error::NoJson)) | (Out::Json, Err(cm::Error::Json(_))) => {}
            (Out::Doc(d), Ok(m)) => {
                let v: cm::Metadata = serde_json::from_str(d).unwrap();
                if document(&v) != document(m) {
                    return Err("the document that is returned is another one".to_owned());
                }
            }
            (w, g) => return Err(format!("{w:?} should have come out, not {:?}", g.map(document))),
        }
        if let Err(e) = got {
            // errors with a cause give it
            let has = std::error::Error::source(e).is_some();
            if has != matches!(e, cm::Error::Io(_) | cm::Error::Utf8(_) | cm::Error::ErrUtf8(_) | cm::Error::Json(_)) {
                return Err(format!("the source of {e:?} is {:?}", std::error::Error::source(e)));
            }
            if e.to_string().is_empty() {
                return Err(format!("{e:?} is shown as nothing"));
            }
        }
        Ok(())
    };
    let got = guard(|| mdc.exec())?;
    check(got.as_ref())?;

    // how it was called
    if !missing {
        let call: serde_json::Value = std::fs::read(dir.join("call"))
            .ok()
            .and_then(|b| serde_json::from_slice(&b).ok())
            .ok_or("cargo was not run")?;
        let args: Vec<String> = mdc.cargo_command().get_args().map(|a| a.to_str().unwrap().to_owned()).collect();
        if call["args"] != json!(args) || call["cwd"] != json!(sub) || call["env"] != json!(g.value) {
            return Err(format!("cargo was run as {call}, not with {args:?} in {sub:?} with {:?}", g.value));
        }
    }

    // the builder hands all of it on
    let built = guard(|| krates::Builder::new().build::<cm::Package, krates::Edge, _>(mdc, krates::NoneFilter))?;
    let of = |m: cm::Metadata| guard(|| krates::Builder::new().build_with_metadata::<cm::Package, krates::Edge, _>(m, krates::NoneFilter));
    match (&want, built) {
        (Out::Doc(d), r) => {
            let m: cm::Metadata = serde_json::from_str(d).unwrap();
            match (of(m)?, r) {
                (Ok(a), Ok(b)) if dump(&a) == dump(&b) => cx.label("graph"),
                (Err(krates::Error::NoResolveGraph), Err(krates::Error::NoResolveGraph)) => cx.label("no resolution"),
                (a, b) => return Err(format!("built from the command: {:?}, from its document: {:?}", b.err(), a.err())),
            }
        }
        (_, Err(krates::Error::Metadata(e))) => {
            check(Err(&e))?;
            let shown = e.to_string();
            let e = krates::Error::Metadata(e);
            if !e.to_string().contains(&shown) || std::error::Error::source(&e).is_none() {
                return Err(format!("{shown:?} is not shown in {e}, or not its source"));
            }
        }
        (w, r) => return Err(format!("{w:?} should have come out of the builder, not {:?}", r.err())),
    }
    let _ = std::fs::remove_dir_all(&dir);
    cx.label(match want {
        Out::Io => "cannot be run",
        Out::Failed(_) => "cargo failed",
        Out::ErrUtf8 => "cargo failed, stderr is no text",
        Out::Utf8 => "stdout is no text",
        Out::NoJson => "no json",
        Out::Json => "other json",
        Out::Doc(_) => "document",
    });
    cx.label_if(stdout.len() > 70_000 || stderr.len() > 70_000, "more than a pipe takes");
    cx.nontrivial_if(lines.len() > 1 || code != 0);
    cx.sample(|| json!({"stdout": String::from_utf8_lossy(&stdout).chars().take(200).collect::<String>(), "code": code}));
    Ok(())
}

pub fn checks() -> Vec<Check> {
    vec![
        Check {
            id: "C18",
            rule: "Up to ten calls on either command builder, with paths, features, flags and values of every kind; program, arguments, directory and environment of the command are taken apart as cargo does and compared with what was asked for; and the program for generated values of the CARGO variable in child processes. Non-trivial: more than two calls; the variable is set.",
            assumptions: &["arguments that mean the same to cargo are the same: `--x y` and `--x=y`, features split by comma or space"],
            parts: vec![part("calls", 600_000, 30_000_000, cmd_g, c18), part("program", 400, 20_000, env_g, c18_env)],
        },
        Check {
            id: "C19",
            rule: "A stand-in for cargo prints generated output: documents, other json, noise, what is no text, more than a pipe takes, on both streams, and ends with some code or by a signal; the outcome of running the command and of building from it must be as documented, and the stand-in must have been called with the arguments, directory and environment of the command. Non-trivial: several lines, or cargo fails.",
            assumptions: &["the stand-in is this program itself, in a scratch directory"],
            parts: vec![part("runs", 12_000, 600_000, exec_g, c19)],
        },
    ]
}
