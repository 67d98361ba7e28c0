//! Parameters of the crate under test from those of a case.
use hcore::case::{P, Q};

pub trait Build {
    type Out;
    fn build(&self) -> Self::Out;
}

impl Build for P {
    type Out = blake2s_simd::Params;
    fn build(&self) -> blake2s_simd::Params {
        let mut p = blake2s_simd::Params::new();
        if self.x || self.hl != 32 {
            p.hash_length(self.hl as usize);
        }
        if self.x || !self.key.is_empty() {
            p.key(&self.key);
        }
        if self.x || !self.salt.is_empty() {
            p.salt(&self.salt);
        }
        if self.x || !self.pers.is_empty() {
            p.personal(&self.pers);
        }
        if self.x || self.fo != 1 {
            p.fanout(self.fo);
        }
        if self.x || self.md != 1 {
            p.max_depth(self.md);
        }
        if self.x || self.leaf != 0 {
            p.max_leaf_length(self.leaf);
        }
        if self.x || self.off != 0 {
            p.node_offset(self.off);
        }
        if self.x || self.nd != 0 {
            p.node_depth(self.nd);
        }
        if self.x || self.inner != 0 {
            p.inner_hash_length(self.inner as usize);
        }
        if self.x || self.last {
            p.last_node(self.last);
        }
        p
    }
}

impl Build for Q {
    type Out = blake2s_simd::blake2sp::Params;
    fn build(&self) -> blake2s_simd::blake2sp::Params {
        let mut p = blake2s_simd::blake2sp::Params::new();
        if self.hl != 32 {
            p.hash_length(self.hl as usize);
        }
        if !self.key.is_empty() {
            p.key(&self.key);
        }
        p
    }
}
