//! Target descriptions taken from `rustc --print cfg`, and an evaluator for
//! `cfg()` expressions that shares nothing with the one under test.

pub struct Tgt {
    pub triple: &'static str,
    pub arch: &'static str,
    pub os: &'static str,
    pub env: &'static str,
    pub family: &'static str,
    pub vendor: &'static str,
    pub width: &'static str,
    pub endian: &'static str,
    pub abi: &'static str,
    pub atomics: &'static [&'static str],
}

#[rustfmt::skip]
pub static TARGETS: &[Tgt] = &[
    Tgt { triple: "x86_64-unknown-linux-gnu", arch: "x86_64", os: "linux", env: "gnu", family: "unix", vendor: "unknown", width: "64", endian: "little", abi: "", atomics: &["16", "32", "64", "8", "ptr"] },
    Tgt { triple: "x86_64-unknown-linux-musl", arch: "x86_64", os: "linux", env: "musl", family: "unix", vendor: "unknown", width: "64", endian: "little", abi: "", atomics: &["16", "32", "64", "8", "ptr"] },
    Tgt { triple: "aarch64-unknown-linux-gnu", arch: "aarch64", os: "linux", env: "gnu", family: "unix", vendor: "unknown", width: "64", endian: "little", abi: "", atomics: &["128", "16", "32", "64", "8", "ptr"] },
    Tgt { triple: "i686-unknown-linux-gnu", arch: "x86", os: "linux", env: "gnu", family: "unix", vendor: "unknown", width: "32", endian: "little", abi: "", atomics: &["16", "32", "64", "8", "ptr"] },
    Tgt { triple: "armv7-unknown-linux-gnueabihf", arch: "arm", os: "linux", env: "gnu", family: "unix", vendor: "unknown", width: "32", endian: "little", abi: "eabihf", atomics: &["16", "32", "64", "8", "ptr"] },
    Tgt { triple: "x86_64-pc-windows-msvc", arch: "x86_64", os: "windows", env: "msvc", family: "windows", vendor: "pc", width: "64", endian: "little", abi: "", atomics: &["128", "16", "32", "64", "8", "ptr"] },
    Tgt { triple: "x86_64-pc-windows-gnu", arch: "x86_64", os: "windows", env: "gnu", family: "windows", vendor: "pc", width: "64", endian: "little", abi: "", atomics: &["128", "16", "32", "64", "8", "ptr"] },
    Tgt { triple: "i686-pc-windows-msvc", arch: "x86", os: "windows", env: "msvc", family: "windows", vendor: "pc", width: "32", endian: "little", abi: "", atomics: &["16", "32", "64", "8", "ptr"] },
    Tgt { triple: "aarch64-pc-windows-msvc", arch: "aarch64", os: "windows", env: "msvc", family: "windows", vendor: "pc", width: "64", endian: "little", abi: "", atomics: &["128", "16", "32", "64", "8", "ptr"] },
    Tgt { triple: "x86_64-apple-darwin", arch: "x86_64", os: "macos", env: "", family: "unix", vendor: "apple", width: "64", endian: "little", abi: "", atomics: &["128", "16", "32", "64", "8", "ptr"] },
    Tgt { triple: "aarch64-apple-darwin", arch: "aarch64", os: "macos", env: "", family: "unix", vendor: "apple", width: "64", endian: "little", abi: "", atomics: &["128", "16", "32", "64", "8", "ptr"] },
    Tgt { triple: "aarch64-apple-ios", arch: "aarch64", os: "ios", env: "", family: "unix", vendor: "apple", width: "64", endian: "little", abi: "", atomics: &["128", "16", "32", "64", "8", "ptr"] },
    Tgt { triple: "aarch64-linux-android", arch: "aarch64", os: "android", env: "", family: "unix", vendor: "unknown", width: "64", endian: "little", abi: "", atomics: &["128", "16", "32", "64", "8", "ptr"] },
    Tgt { triple: "wasm32-unknown-unknown", arch: "wasm32", os: "unknown", env: "", family: "wasm", vendor: "unknown", width: "32", endian: "little", abi: "", atomics: &["16", "32", "64", "8", "ptr"] },
    Tgt { triple: "wasm32-wasip1", arch: "wasm32", os: "wasi", env: "p1", family: "wasm", vendor: "unknown", width: "32", endian: "little", abi: "", atomics: &["16", "32", "64", "8", "ptr"] },
    Tgt { triple: "x86_64-unknown-freebsd", arch: "x86_64", os: "freebsd", env: "", family: "unix", vendor: "unknown", width: "64", endian: "little", abi: "", atomics: &["16", "32", "64", "8", "ptr"] },
    Tgt { triple: "powerpc64-unknown-linux-gnu", arch: "powerpc64", os: "linux", env: "gnu", family: "unix", vendor: "unknown", width: "64", endian: "big", abi: "elfv1", atomics: &["16", "32", "64", "8", "ptr"] },
    Tgt { triple: "s390x-unknown-linux-gnu", arch: "s390x", os: "linux", env: "gnu", family: "unix", vendor: "unknown", width: "64", endian: "big", abi: "", atomics: &["128", "16", "32", "64", "8", "ptr"] },
    Tgt { triple: "x86_64-unknown-uefi", arch: "x86_64", os: "uefi", env: "", family: "", vendor: "unknown", width: "64", endian: "little", abi: "", atomics: &["16", "32", "64", "8", "ptr"] },
    Tgt { triple: "thumbv7em-none-eabihf", arch: "arm", os: "none", env: "", family: "", vendor: "unknown", width: "32", endian: "little", abi: "eabihf", atomics: &["16", "32", "8", "ptr"] },
];

/// Triples rustc does not know, which the `targets` feature is there for. What
/// they mean follows from the names of their parts
#[cfg(feature = "targets")]
#[rustfmt::skip]
pub static CUSTOM: &[Tgt] = &[
    Tgt { triple: "x86_64-acme-linux-gnu", arch: "x86_64", os: "linux", env: "gnu", family: "unix", vendor: "acme", width: "64", endian: "little", abi: "", atomics: &[] },
    Tgt { triple: "aarch64-acme-linux-musl", arch: "aarch64", os: "linux", env: "musl", family: "unix", vendor: "acme", width: "64", endian: "little", abi: "", atomics: &[] },
    Tgt { triple: "armv7-acme-linux-gnueabihf", arch: "arm", os: "linux", env: "gnu", family: "unix", vendor: "acme", width: "32", endian: "little", abi: "", atomics: &[] },
    Tgt { triple: "i686-acme-windows-msvc", arch: "x86", os: "windows", env: "msvc", family: "windows", vendor: "acme", width: "32", endian: "little", abi: "", atomics: &[] },
    Tgt { triple: "x86_64-acme-windows-gnu", arch: "x86_64", os: "windows", env: "gnu", family: "windows", vendor: "acme", width: "64", endian: "little", abi: "", atomics: &[] },
    Tgt { triple: "aarch64-acme-freebsd", arch: "aarch64", os: "freebsd", env: "", family: "unix", vendor: "acme", width: "64", endian: "little", abi: "", atomics: &[] },
    Tgt { triple: "wasm32-acme-unknown", arch: "wasm32", os: "unknown", env: "", family: "wasm", vendor: "acme", width: "32", endian: "little", abi: "", atomics: &[] },
    Tgt { triple: "s390x-acme-linux-gnu", arch: "s390x", os: "linux", env: "gnu", family: "unix", vendor: "acme", width: "64", endian: "big", abi: "", atomics: &[] },
    Tgt { triple: "powerpc64-acme-linux-gnu", arch: "powerpc64", os: "linux", env: "gnu", family: "unix", vendor: "acme", width: "64", endian: "big", abi: "", atomics: &[] },
    Tgt { triple: "x86_64-acme-haiku", arch: "x86_64", os: "haiku", env: "", family: "unix", vendor: "acme", width: "64", endian: "little", abi: "", atomics: &[] },
    Tgt { triple: "thumbv7em-acme-none", arch: "arm", os: "none", env: "", family: "", vendor: "acme", width: "32", endian: "little", abi: "", atomics: &[] },
    Tgt { triple: "i686-pc-linux-musl", arch: "x86", os: "linux", env: "musl", family: "unix", vendor: "pc", width: "32", endian: "little", abi: "", atomics: &[] },
];
#[cfg(not(feature = "targets"))]
pub static CUSTOM: &[Tgt] = &[];

/// Triples no version of rustc knows, and that are not made as triples are
pub static UNKNOWN: &[&str] = &[
    "my-custom-target",
    "x86_64-acme-frobos",
    "custom.json",
    #[cfg(not(feature = "targets"))]
    "aarch64",
];

pub fn triple_pool() -> impl Iterator<Item = &'static str> + Clone {
    TARGETS.iter().map(|t| t.triple).chain(UNKNOWN.iter().copied()).chain(CUSTOM.iter().map(|t| t.triple))
}

fn known(triple: &str) -> Option<&'static Tgt> {
    TARGETS.iter().chain(CUSTOM).find(|t| t.triple == triple)
}

#[derive(Clone, Debug, PartialEq)]
pub enum Ast {
    Any(Vec<Ast>),
    All(Vec<Ast>),
    Not(Box<Ast>),
    /// `unix`, `windows`
    Word(String),
    /// key = "value"
    Kv(String, String),
}

impl std::fmt::Display for Ast {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        let list = |f: &mut std::fmt::Formatter<'_>, n: &str, l: &[Ast]| {
            write!(f, "{n}(")?;
            for (i, a) in l.iter().enumerate() {
                if i > 0 {
                    f.write_str(", ")?;
                }
                write!(f, "{a}")?;
            }
            f.write_str(")")
        };
        match self {
            Ast::Any(l) => list(f, "any", l),
            Ast::All(l) => list(f, "all", l),
            Ast::Not(a) => write!(f, "not({a})"),
            Ast::Word(w) => f.write_str(w),
            Ast::Kv(k, v) => write!(f, "{k} = \"{v}\""),
        }
    }
}

/// What a target filter promises
pub struct Filter<'a> {
    pub triple: &'a str,
    pub features: &'a [String],
}

impl Ast {
    /// Evaluates for one target. A triple that is not known answers `false`
    /// to every question about the target itself
    pub fn eval(&self, flt: &Filter<'_>) -> bool {
        self.eval_for(known(flt.triple), flt.features)
    }

    pub fn eval_for(&self, t: Option<&Tgt>, features: &[String]) -> bool {
        match self {
            Ast::Any(l) => l.iter().any(|a| a.eval_for(t, features)),
            Ast::All(l) => l.iter().all(|a| a.eval_for(t, features)),
            Ast::Not(a) => !a.eval_for(t, features),
            Ast::Kv(k, v) if k == "target_feature" => features.iter().any(|f| f == v),
            Ast::Word(w) => {
                let Some(t) = t else { return false };
                (w == "unix" || w == "windows") && t.family == w
            }
            Ast::Kv(k, v) => {
                let Some(t) = t else { return false };
                match k.as_str() {
                    "target_arch" => t.arch == v,
                    "target_os" => t.os == v,
                    "target_env" => t.env == v,
                    "target_family" => t.family == v,
                    "target_vendor" => t.vendor == v,
                    "target_pointer_width" => t.width == v,
                    "target_endian" => t.endian == v,
                    "target_abi" => t.abi == v,
                    "target_has_atomic" => t.atomics.contains(&v.as_str()),
                    _ => false,
                }
            }
        }
    }

    pub fn predicates(&self) -> usize {
        match self {
            Ast::Any(l) | Ast::All(l) => l.iter().map(|a| a.predicates()).sum(),
            Ast::Not(a) => a.predicates(),
            _ => 1,
        }
    }

    /// The value of an expression without any predicate
    fn constant(&self) -> bool {
        match self {
            Ast::Any(l) => l.iter().any(|a| a.constant()),
            Ast::All(l) => l.iter().all(|a| a.constant()),
            Ast::Not(a) => !a.constant(),
            _ => true,
        }
    }

    pub fn never(&self) -> bool {
        self.predicates() == 0 && !self.constant()
    }
}

/// Parses the inside of `cfg(..)`
pub fn parse(s: &str) -> Option<Ast> {
    struct P<'a> {
        t: Vec<&'a str>,
        i: usize,
    }
    let mut toks = Vec::new();
    let b = s.as_bytes();
    let mut i = 0;
    while i < b.len() {
        match b[i] {
            b' ' | b'\n' | b'\t' => i += 1,
            b'(' | b')' | b',' | b'=' => {
                toks.push(&s[i..i + 1]);
                i += 1;
            }
            b'"' => {
                let e = i + 1 + s[i + 1..].find('"')?;
                toks.push(&s[i..=e]);
                i = e + 1;
            }
            _ => {
                let st = i;
                while i < b.len() && (b[i].is_ascii_alphanumeric() || b[i] == b'_') {
                    i += 1;
                }
                if st == i {
                    return None;
                }
                toks.push(&s[st..i]);
            }
        }
    }
    impl P<'_> {
        fn peek(&self) -> Option<&str> {
            self.t.get(self.i).copied()
        }
        fn eat(&mut self, s: &str) -> bool {
            let y = self.peek() == Some(s);
            self.i += usize::from(y);
            y
        }
        fn expr(&mut self) -> Option<Ast> {
            let w = self.peek()?.to_owned();
            self.i += 1;
            match w.as_str() {
                "any" | "all" | "not" if self.eat("(") => {
                    let mut l = Vec::new();
                    while !self.eat(")") {
                        l.push(self.expr()?);
                        if !self.eat(",") && self.peek() != Some(")") {
                            return None;
                        }
                    }
                    match w.as_str() {
                        "any" => Some(Ast::Any(l)),
                        "all" => Some(Ast::All(l)),
                        _ if l.len() == 1 => Some(Ast::Not(Box::new(l.remove(0)))),
                        _ => None,
                    }
                }
                _ if self.eat("=") => {
                    let v = self.peek()?.strip_prefix('"')?.strip_suffix('"')?.to_owned();
                    self.i += 1;
                    Some(Ast::Kv(w, v))
                }
                _ => Some(Ast::Word(w)),
            }
        }
    }
    let mut p = P { t: toks, i: 0 };
    let e = p.expr()?;
    (p.i == p.t.len()).then_some(e)
}

/// A `[target.X]` key: a triple or an expression
#[derive(Clone, Debug)]
pub enum Key {
    Triple(String),
    Cfg(Ast),
}

impl Key {
    pub fn parse(s: &str) -> Self {
        match s.strip_prefix("cfg(").and_then(|r| r.strip_suffix(')')) {
            Some(inner) => Key::Cfg(parse(inner).unwrap_or_else(|| panic!("harness: cannot parse {s}"))),
            None => Key::Triple(s.to_owned()),
        }
    }

    pub fn text(&self) -> String {
        match self {
            Key::Triple(t) => t.clone(),
            Key::Cfg(a) => format!("cfg({a})"),
        }
    }

    /// Whether a dependency under this key is part of the graph for `filters`
    pub fn allowed(&self, filters: &[Filter<'_>]) -> bool {
        match self {
            Key::Triple(t) => filters.is_empty() || filters.iter().any(|f| f.triple == t),
            Key::Cfg(a) => {
                if filters.is_empty() {
                    !a.never()
                } else {
                    filters.iter().any(|f| a.eval(f))
                }
            }
        }
    }
}

struct Rd<'a>(&'a [u8], usize);
impl Rd<'_> {
    fn n(&mut self) -> usize {
        let v = self.0.get(self.1).copied().unwrap_or(0);
        self.1 += 1;
        v as usize
    }
}

pub static FEATS: &[&str] = &["atomics", "sse2", "avx2", "neon", "crt-static", "sse", "avx", "sse4.1", "sse4.2"];

fn expr(r: &mut Rd<'_>, depth: usize) -> Ast {
    let kv = |k: &str, v: &str| Ast::Kv(k.to_owned(), v.to_owned());
    fn pick<'a>(n: usize, l: &[&'a str]) -> &'a str {
        l[n % l.len()]
    }
    let k = r.n() % if depth == 0 { 11 } else { 16 };
    match k {
        0 => Ast::Word("unix".into()),
        1 => Ast::Word("windows".into()),
        2 | 3 => kv("target_os", pick(r.n(), &["linux", "windows", "macos", "android", "ios", "unknown", "wasi", "freebsd", "none", "haiku"])),
        4 | 5 => kv("target_arch", pick(r.n(), &["x86_64", "aarch64", "wasm32", "x86", "arm", "powerpc64", "s390x"])),
        6 => kv("target_env", pick(r.n(), &["gnu", "musl", "msvc", "p1"])),
        7 => match r.n() % 6 {
            0 => kv("target_family", pick(r.n(), &["unix", "windows", "wasm"])),
            1 => kv("target_pointer_width", pick(r.n(), &["64", "32"])),
            2 => kv("target_endian", pick(r.n(), &["little", "big"])),
            3 => kv("target_vendor", pick(r.n(), &["unknown", "apple", "pc"])),
            4 => kv("target_has_atomic", pick(r.n(), &["64", "8", "ptr", "32"])),
            _ => kv("target_abi", pick(r.n(), &["eabihf", "eabihf"])),
        },
        8 => kv("target_feature", pick(r.n(), FEATS)),
        9 => match r.n() % 3 {
            0 => kv("feature", "default"),
            1 => Ast::Word("test".into()),
            _ => Ast::Word("debug_assertions".into()),
        },
        10 => Ast::Any(vec![]),
        11 | 12 => Ast::Not(Box::new(expr(r, depth - 1))),
        13 | 14 => {
            let n = r.n() % 4;
            Ast::All((0..n).map(|_| expr(r, depth - 1)).collect())
        }
        _ => {
            let n = r.n() % 4;
            Ast::Any((0..n).map(|_| expr(r, depth - 1)).collect())
        }
    }
}

/// Empty bytes: no target key at all
pub fn decode_key(b: &[u8]) -> Option<Key> {
    if b.is_empty() {
        return None;
    }
    let mut r = Rd(b, 0);
    Some(match r.n() % 8 {
        0 | 1 => {
            let pool: Vec<_> = triple_pool().collect();
            Key::Triple(pool[r.n() % pool.len()].to_owned())
        }
        // the weight of small expressions
        2..=4 => Key::Cfg(expr(&mut r, 0)),
        _ => Key::Cfg(expr(&mut r, 2)),
    })
}
