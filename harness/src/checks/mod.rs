//! The checks, one per property.

use crate::conf::{self, ConfG};
use crate::runner::Check;
use crate::world::{self, World, WorldG};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

pub mod build;
pub mod cmd;
pub mod feats;
pub mod filters;
pub mod ids;
pub mod json;
pub mod query;
pub mod real;
pub mod recorded;
pub mod spec;
pub mod text;

/// A world and a configuration for it
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct WC {
    pub world: WorldG,
    pub conf: ConfG,
}

impl WC {
    pub fn decode(&self) -> (World, crate::model::Conf) {
        let w = World::decode(&self.world);
        let c = conf::decode(&self.conf, &w);
        (w, c)
    }
}

/// A document, a configuration for it, and what to show of it
pub trait Input {
    fn load(&self) -> (krates::cm::Metadata, crate::model::Conf);
}

impl Input for WC {
    fn load(&self) -> (krates::cm::Metadata, crate::model::Conf) {
        let (w, c) = self.decode();
        (w.metadata(), c)
    }
}

pub fn with_conf(w: BoxedStrategy<WorldG>, c: BoxedStrategy<ConfG>) -> BoxedStrategy<WC> {
    (w, c).prop_map(|(world, conf)| WC { world, conf }).boxed()
}

/// worlds, no configuration
pub fn plain() -> BoxedStrategy<WC> {
    world::world_g().prop_map(|world| WC { world, conf: ConfG::default() }).boxed()
}

/// worlds and configurations of every sort
pub fn mixed() -> BoxedStrategy<WC> {
    with_conf(world::world_g(), conf::conf_g())
}

/// few packages, many features and declarations
pub fn dense() -> BoxedStrategy<WC> {
    with_conf(
        prop_oneof![world::world_sized(2..=4, 7, 7), world::world_sized(3..=6, 6, 7)].boxed(),
        prop_oneof![Just(ConfG::default()).boxed(), conf::conf_g()].boxed(),
    )
}

/// dense worlds where cargo turned on more than the graph is to contain: only
/// some of the members are roots, and links are ignored
pub fn pruned() -> BoxedStrategy<WC> {
    let conf = (any::<bool>(), conf::conf_g(), any::<u8>())
        .prop_map(|(some, mut c, k)| {
            if some && c.ignore.is_empty() {
                // build or dev dependencies
                c.ignore.push((1 + k % 2, k));
            }
            c.workspace = k % 7 == 0;
            c
        })
        .boxed();
    let w = prop_oneof![world::world_sized(3..=6, 6, 6), world::world_sized(4..=9, 5, 5)]
        .prop_map(|mut w| {
            w.root = w.root % 60 / 3 * 3 + if w.root % 4 == 0 { 0 } else { 1 };
            for (i, p) in w.pkgs.iter_mut().enumerate() {
                if i > 0 && p.dir % 3 == 0 {
                    p.src = 5;
                }
                for d in &mut p.deps {
                    d.opt |= d.to % 3 == 0;
                    // more build and dev dependencies
                    if d.req % 4 == 0 {
                        d.kind = 5 + d.req / 4 % 3;
                    }
                }
            }
            w
        })
        .boxed();
    with_conf(w, conf)
}

/// larger worlds
pub fn large() -> BoxedStrategy<WC> {
    with_conf(world::world_sized(14..=40, 7, 5), conf::conf_g())
}

/// Several packages of one name, mostly local ones, one within the other, and
/// depended on under names and with libraries that are alike
pub fn namesakes() -> BoxedStrategy<WC> {
    let w = prop_oneof![world::world_sized(3..=5, 6, 5), world::world_sized(4..=8, 5, 4)]
        .prop_map(|mut w| {
            for p in w.pkgs.iter_mut() {
                p.name = p.name % 5 % 3;
                if p.src % 3 > 0 {
                    p.src = 9;
                }
                if p.lib % 4 == 0 {
                    p.lib = 6 + 12 * (p.lib / 4 % 21);
                }
                if p.dir % 5 < 2 {
                    p.dir = p.dir / 16 * 16 + 7;
                }
                for d in &mut p.deps {
                    d.alias = [172, 176, 156, 188, 144, 148, 129, 130][d.alias as usize % 8];
                }
            }
            w
        })
        .boxed();
    with_conf(w, prop_oneof![Just(ConfG::default()).boxed(), conf::conf_g()].boxed())
}

pub fn all() -> Vec<Check> {
    let mut v = Vec::new();
    v.extend(build::checks());
    v.extend(filters::checks());
    v.extend(feats::checks());
    v.extend(query::checks());
    v.extend(ids::checks());
    v.extend(cmd::checks());
    v.extend(json::checks());
    v.extend(spec::checks());
    v.extend(real::checks());
    v.extend(text::checks());
    v
}

/// Runs of this program as somebody else's child process
pub fn child(args: &[String]) -> Option<i32> {
    cmd::child(args)
}
