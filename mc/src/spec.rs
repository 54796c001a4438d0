//! The specification: what a tree over given contents must hash to and what its proofs are,
//! written independently of the implementation as a plain recursive binary sparse Merkle tree.
use crate::ck;
use crate::util::*;
use borsh::{BorshDeserialize, BorshSerialize};
use jmt::SimpleHasher;
use std::collections::BTreeMap;

pub type Map = BTreeMap<K, V>;
pub const PLACEHOLDER: K = *b"SPARSE_MERKLE_PLACEHOLDER_HASH__";

pub fn bit(k: &K, i: usize) -> bool {
    (k[i / 8] >> (7 - i % 8)) & 1 == 1
}
pub fn flip(k: &K, i: usize) -> K {
    let mut k = *k;
    k[i / 8] ^= 1 << (7 - i % 8);
    k
}
pub fn nib(k: &K, i: usize) -> u8 {
    if i % 2 == 0 {
        k[i / 2] >> 4
    } else {
        k[i / 2] & 15
    }
}
pub fn set_nib(k: &K, i: usize, n: u8) -> K {
    let mut k = *k;
    if i % 2 == 0 {
        k[i / 2] = (k[i / 2] & 0x0f) | (n << 4);
    } else {
        k[i / 2] = (k[i / 2] & 0xf0) | n;
    }
    k
}
pub fn common_bits(a: &K, b: &K) -> usize {
    (0..256).find(|i| bit(a, *i) != bit(b, *i)).unwrap_or(256)
}

pub fn h2<H: SimpleHasher>(l: &K, r: &K) -> K {
    let mut h = H::new();
    h.update(b"JMT::IntrnalNode");
    h.update(l);
    h.update(r);
    h.finalize()
}
pub fn hleaf<H: SimpleHasher>(k: &K, vh: &K) -> K {
    let mut h = H::new();
    h.update(b"JMT::LeafNode");
    h.update(k);
    h.update(vh);
    h.finalize()
}
pub fn hval<H: SimpleHasher>(v: &[u8]) -> K {
    let mut h = H::new();
    h.update(v);
    h.finalize()
}

/// (key, value hash), sorted by key
pub type Leaves = Vec<(K, K)>;
pub fn leaves<H: SimpleHasher>(m: &Map) -> Leaves {
    m.iter().map(|(k, v)| (*k, hval::<H>(v))).collect()
}

pub fn split(l: &[(K, K)], depth: usize) -> usize {
    l.partition_point(|(k, _)| !bit(k, depth))
}

pub fn root_of<H: SimpleHasher>(l: &[(K, K)], depth: usize) -> K {
    match l.len() {
        0 => PLACEHOLDER,
        1 => hleaf::<H>(&l[0].0, &l[0].1),
        _ => {
            let m = split(l, depth);
            let a = root_of::<H>(&l[..m], depth + 1);
            let b = root_of::<H>(&l[m..], depth + 1);
            h2::<H>(&a, &b)
        }
    }
}
pub fn spec_root<H: SimpleHasher>(m: &Map) -> K {
    root_of::<H>(&leaves::<H>(m), 0)
}

/// Mirror of the sibling type of the proofs (decoded and forged through their binary encoding).
#[derive(BorshSerialize, BorshDeserialize, Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Sib {
    Null,
    Internal { l: K, r: K },
    Leaf { k: K, v: K },
}
impl Sib {
    pub fn hash<H: SimpleHasher>(&self) -> K {
        match self {
            Sib::Null => PLACEHOLDER,
            Sib::Internal { l, r } => h2::<H>(l, r),
            Sib::Leaf { k, v } => hleaf::<H>(k, v),
        }
    }
}
/// Mirror of a read proof; siblings from the bottom up.
#[derive(BorshSerialize, BorshDeserialize, Clone, PartialEq, Eq, Debug, Hash)]
pub struct PProof {
    pub leaf: Option<(K, K)>,
    pub sibs: Vec<Sib>,
}
#[derive(BorshSerialize, BorshDeserialize, Clone, PartialEq, Eq, Debug)]
pub struct PRange {
    pub right: Vec<Sib>,
}

/// What the subtree over `l` at `depth` looks like as a sibling.
pub fn subtree_sib<H: SimpleHasher>(l: &[(K, K)], depth: usize) -> Sib {
    match l.len() {
        0 => Sib::Null,
        1 => Sib::Leaf {
            k: l[0].0,
            v: l[0].1,
        },
        _ => {
            let m = split(l, depth);
            Sib::Internal {
                l: root_of::<H>(&l[..m], depth + 1),
                r: root_of::<H>(&l[m..], depth + 1),
            }
        }
    }
}

/// The proof of `key` in the tree over `l`.
pub fn spec_proof<H: SimpleHasher>(l: &[(K, K)], key: &K) -> PProof {
    let mut cur = l;
    let mut depth = 0;
    let mut sibs = vec![];
    while cur.len() > 1 {
        let m = split(cur, depth);
        let (mine, other) = if bit(key, depth) {
            (&cur[m..], &cur[..m])
        } else {
            (&cur[..m], &cur[m..])
        };
        sibs.push(subtree_sib::<H>(other, depth + 1));
        cur = mine;
        depth += 1;
    }
    sibs.reverse();
    PProof {
        leaf: cur.first().copied(),
        sibs,
    }
}

pub fn fold<H: SimpleHasher>(start: K, key: &K, sibs: &[K]) -> K {
    let n = sibs.len();
    let mut cur = start;
    for (i, s) in sibs.iter().enumerate() {
        cur = if bit(key, n - 1 - i) {
            h2::<H>(s, &cur)
        } else {
            h2::<H>(&cur, s)
        };
    }
    cur
}

impl PProof {
    /// Independent verifier.
    pub fn verify<H: SimpleHasher>(&self, root: &K, key: &K, value: Option<&[u8]>) -> R {
        ck!(self.sibs.len() <= 256, "too many siblings");
        let start = match (&self.leaf, value) {
            (Some((k, vh)), Some(v)) => {
                ck!(k == key, "leaf of another key in existence proof");
                ck!(*vh == hval::<H>(v), "value hash mismatch");
                hleaf::<H>(k, vh)
            }
            (None, Some(_)) => return Err("no leaf in existence proof".into()),
            (Some((k, vh)), None) => {
                ck!(k != key, "leaf of the key in non-existence proof");
                ck!(
                    common_bits(k, key) >= self.sibs.len(),
                    "leaf is not on the path of the key"
                );
                hleaf::<H>(k, vh)
            }
            (None, None) => PLACEHOLDER,
        };
        let sh: Vec<K> = self.sibs.iter().map(|s| s.hash::<H>()).collect();
        ck!(fold::<H>(start, key, &sh) == *root, "root mismatch");
        Ok(())
    }
}

/// Map after an ordered list of updates.
pub fn apply_updates(m: &Map, ups: &[(K, Option<V>)]) -> Map {
    let mut m = m.clone();
    for (k, v) in ups {
        match v {
            Some(v) => {
                m.insert(*k, v.clone());
            }
            None => {
                m.remove(k);
            }
        }
    }
    m
}
