//! C19: everything the library stores or sends survives its encodings.
use crate::basic::*;
use crate::forge::{left_of, smleaf};
use crate::shapes::*;
use crate::spec::*;
use crate::store::*;
use crate::util::*;
use crate::world::*;
use crate::{ck, mc, Info};
use borsh::{BorshDeserialize, BorshSerialize};
use jmt::proof::{SparseMerkleProof, SparseMerkleRangeProof, UpdateMerkleProof};
use jmt::storage::*;
use jmt::{KeyHash, RootHash, SimpleHasher, ValueHash, Version};
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use sha2::Sha256;
use std::cell::RefCell;
use std::collections::HashMap;
use std::fmt::Debug;
use std::sync::Arc;

/// SHA-256 as a serializable type, so that every proof type offers its text encoding.
#[derive(Serialize, Deserialize)]
pub struct Ser {
    #[serde(skip)]
    h: Sha256Box,
}
#[derive(Clone, Default)]
struct Sha256Box(Sha256);
impl Debug for Ser {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Ser")
    }
}
impl SimpleHasher for Ser {
    fn new() -> Self {
        Ser { h: Sha256Box::default() }
    }
    fn update(&mut self, data: &[u8]) {
        SimpleHasher::update(&mut self.h.0, data)
    }
    fn finalize(self) -> [u8; 32] {
        SimpleHasher::finalize(self.h.0)
    }
}

/// How much of each encoding to attack.
#[derive(Clone, Copy, PartialEq)]
struct Deep {
    /// every strict prefix (else only round trips)
    cuts: bool,
    /// every single changed byte
    flips: bool,
}

thread_local! {
    // encodings seen in this case, by type
    static SEEN: RefCell<HashMap<(&'static str, Vec<u8>), String, FxBuild>> = RefCell::new(HashMap::default());
    // encodings attacked already by this thread
    static CUT: RefCell<std::collections::HashSet<u64, FxBuild>> = RefCell::new(Default::default());
}
fn fresh() {
    SEEN.with(|s| s.borrow_mut().clear());
}

fn positions(n: usize) -> Box<dyn Iterator<Item = usize>> {
    if n <= 1600 {
        Box::new(0..n)
    } else {
        Box::new((0..n).filter(move |i| *i < 300 || n - i <= 300 || i % 97 == 0))
    }
}

/// Truncations, extensions and changes of one encoding.
fn attack<T: BorshSerialize + BorshDeserialize>(what: &'static str, b: &[u8], deep: Deep, st: &mut Stats) -> R {
    for tail in [&b[..b.len().min(1)], &[0], &[255], &[0, 0, 0, 0], b] {
        if tail.is_empty() {
            continue;
        }
        let long = [b, tail].concat();
        ck!(T::try_from_slice(&long).is_err(), "{what}: an encoding followed by {} extra bytes is accepted: {}", tail.len(), hex(&long));
        st.add("evaluations", 1);
    }
    if !deep.cuts || !CUT.with(|c| c.borrow_mut().insert(fp(&(what, b)))) {
        return Ok(());
    }
    for n in positions(b.len()) {
        st.add("evaluations", 1);
        ck!(T::try_from_slice(&b[..n]).is_err(), "{what}: the first {n} of {} bytes are accepted: {}", b.len(), hex(b));
    }
    if deep.flips {
        let mut c = b.to_vec();
        for i in positions(b.len()) {
            for x in [1u8, 0x80, 0xff] {
                c[i] ^= x;
                st.add("evaluations", 1);
                if let Ok(t) = T::try_from_slice(&c) {
                    let again = borsh::to_vec(&t).map_err(|e| format!("{what}: {e}"))?;
                    ck!(again == c, "{what}: the bytes {} decode to a value that encodes to {}", hex(&c), hex(&again));
                }
                c[i] ^= x;
            }
        }
    }
    Ok(())
}

/// Binary encoding; `show` identifies the value independently of its encoding.
fn bin<T: BorshSerialize + BorshDeserialize>(
    what: &'static str,
    x: &T,
    show: impl Fn(&T) -> String,
    eq: impl Fn(&T, &T) -> bool,
    deep: Deep,
    st: &mut Stats,
) -> R<T> {
    let b = enc(x)?;
    ck!(enc(x)? == b, "{what}: encoding twice gives different bytes");
    let y: T = dec(&b).map_err(|e| format!("{what}: {e}: {}", show(x)))?;
    ck!(eq(x, &y), "{what}: {} decodes as {}", show(x), show(&y));
    let s = show(x);
    ck!(s == show(&y), "{what}: {s} decodes as {}", show(&y));
    ck!(enc(&y)? == b, "{what}: re-encoding a decoded value gives different bytes: {s}");
    let mut r = &b[..];
    ck!(T::deserialize(&mut r).is_ok() && r.is_empty(), "{what}: decoding leaves bytes over: {s}");
    SEEN.with(|m| -> R {
        let mut m = m.borrow_mut();
        match m.get(&(what, b.clone())) {
            Some(o) => ck!(*o == s, "{what}: different values share an encoding: {o} and {s}"),
            None => {
                m.insert((what, b.clone()), s);
            }
        }
        Ok(())
    })?;
    st.add("evaluations", 1);
    st.add("nontrivial", 1);
    attack::<T>(what, &b, deep, st)?;
    Ok(y)
}
/// Text encoding.
fn txt<T: Serialize + DeserializeOwned>(what: &'static str, x: &T, show: impl Fn(&T) -> String, eq: impl Fn(&T, &T) -> bool, st: &mut Stats) -> R<T> {
    let s = serde_json::to_string(x).map_err(|e| format!("{what}: {e}"))?;
    let y: T = serde_json::from_str(&s).map_err(|e| format!("{what}: text decoding failed: {e}: {s}"))?;
    ck!(eq(x, &y), "{what}: {} decodes from text as {}", show(x), show(&y));
    let s2 = serde_json::to_string(&y).map_err(|e| format!("{what}: {e}"))?;
    ck!(s == s2, "{what}: re-encoding a decoded value gives different text: {s}, {s2}");
    if s.len() < 3000 {
        for n in [0, s.len() / 2, s.len() - 1] {
            ck!(serde_json::from_str::<T>(&s[..n]).is_err(), "{what}: truncated text is accepted: {}", &s[..n]);
        }
        ck!(serde_json::from_str::<T>(&format!("{s}0")).is_err(), "{what}: overlong text is accepted: {s}0");
    }
    st.add("evaluations", 1);
    Ok(y)
}
fn dbg<T: Debug>(x: &T) -> String {
    format!("{x:?}")
}
fn both<T: BorshSerialize + BorshDeserialize + Serialize + DeserializeOwned + PartialEq + Debug>(what: &'static str, x: &T, deep: Deep, st: &mut Stats) -> R {
    bin(what, x, dbg, |a, b| a == b, deep, st)?;
    txt(what, x, dbg, |a, b| a == b, st)?;
    Ok(())
}

fn node_hash<H: SimpleHasher>(n: &Node) -> Option<K> {
    match n {
        Node::Null => None,
        Node::Leaf(l) => Some(l.hash::<H>()),
        Node::Internal(i) => Some(i.hash::<H>()),
    }
}

struct C19 {
    deep: Deep,
    proofs: usize,
}
impl C19 {
    fn batch<H: SimpleHasher>(&self, b: &TreeUpdateBatch, st: &mut Stats) -> R {
        let d = self.deep;
        bin("update batch", b, dbg, |a, b| a == b, Deep { flips: false, ..d }, st)?;
        bin("node batch", &b.node_batch, dbg, |a, b| a == b, Deep { flips: false, ..d }, st)?;
        for s in &b.node_stats {
            bin("node statistics", s, dbg, |a, b| a == b, d, st)?;
        }
        for s in &b.stale_node_index_batch {
            bin("stale index", s, dbg, |a, b| a == b, d, st)?;
        }
        for (k, n) in b.node_batch.nodes() {
            both("node key", k, d, st)?;
            both("nibble path", k.nibble_path(), d, st)?;
            let m = bin("node", n, dbg, |a, b| a == b, d, st)?;
            ck!(node_hash::<H>(&m) == node_hash::<H>(n), "node {n:?} hashes differently once decoded");
            let m = txt("node", n, dbg, |a, b| a == b, st)?;
            ck!(node_hash::<H>(&m) == node_hash::<H>(n), "node {n:?} hashes differently once decoded from text");
            match n {
                Node::Leaf(l) => both("leaf node", l, d, st)?,
                Node::Internal(i) => {
                    // the internal node's type is not exported
                    let (a, b) = (enc(i)?, enc(n)?);
                    ck!(b.ends_with(&a), "an internal node's own encoding is not the one inside the node's: {n:?}");
                }
                Node::Null => {}
            }
        }
        Ok(())
    }
    fn proofs<H: SimpleHasher>(&self, w: &World<H>, v: Version, st: &mut Stats) -> R {
        let d = self.deep;
        let t = w.tree();
        let root = e2s("root", t.get_root_hash(v))?;
        both("root hash", &root, d, st)?;
        let m = w.at(v);
        let l = leaves::<H>(m);
        // mirror the proof, so that equality does not rest on the implementation's
        let mirror = |p: &SparseMerkleProof<H>| -> String { enc(p).and_then(|b| dec::<PProof>(&b)).map(|p| dbg(&p)).unwrap_or_else(|e| e) };
        for k in w.probes.iter().take(self.proofs) {
            both("key hash", &kh(k), d, st)?;
            let (val, p) = e2s("get_with_proof", t.get_with_proof(kh(k), v))?;
            let q = bin("read proof", &p, mirror, |a, b| a == b, d, st)?;
            ck!(q.verify(root, kh(k), val.as_ref()).is_ok(), "the read proof of {} does not verify once decoded", kx(k));
            let q = txt("read proof", &p, mirror, |a, b| a == b, st)?;
            ck!(q.verify(root, kh(k), val.as_ref()).is_ok(), "the read proof of {} does not verify once decoded from text", kx(k));
            if let Some(leaf) = p.leaf() {
                let x = bin("proof leaf", &leaf, dbg, |a, b| a == b, d, st)?;
                ck!(dbg(&x) == dbg(&leaf), "proof leaf");
                txt("proof leaf", &leaf, dbg, |a, b| a == b, st)?;
            }
            if let Some(v) = &val {
                both("value hash", &ValueHash::with::<H>(v), d, st)?;
            }
            if m.contains_key(k) {
                let p = e2s("get_range_proof", t.get_range_proof(kh(k), v))?;
                let show = |p: &SparseMerkleRangeProof<H>| enc(p).and_then(|b| dec::<PRange>(&b)).map(|p| dbg(&p)).unwrap_or_else(|e| e);
                let leaf = smleaf(k, &hval::<H>(&m[k]));
                let left = left_of::<H>(&l, k);
                for q in [bin("range proof", &p, show, |a, b| a == b, d, st)?, txt("range proof", &p, show, |a, b| a == b, st)?] {
                    ck!(q.verify(root, leaf, left.clone()).is_ok(), "the range proof of {} does not verify once decoded", kx(k));
                }
            }
        }
        Ok(())
    }
    fn updates<H: SimpleHasher + Serialize + DeserializeOwned>(&self, w: &World<H>, d: &Done<H>, c: &Commit, st: &mut Stats) -> R {
        let mut old = w.root_before(d);
        for (i, p) in d.proofs.iter().enumerate() {
            let show = |p: &UpdateMerkleProof<H>| -> String { enc(p).and_then(|b| dec::<Vec<PProof>>(&b)).map(|p| dbg(&p)).unwrap_or_else(|e| e) };
            let eq = |a: &UpdateMerkleProof<H>, b: &UpdateMerkleProof<H>| show(a) == show(b);
            for q in [
                bin("update proof", p, show, eq, Deep { flips: false, ..self.deep }, st)?,
                txt("update proof", p, show, eq, st)?,
            ] {
                let ups: Vec<_> = c.sets[i].iter().map(|(k, v)| (kh(k), v.clone())).collect();
                ck!(
                    q.verify_update(RootHash(old), RootHash(d.roots[i]), &ups).is_ok(),
                    "the update proof does not verify once decoded"
                );
            }
            old = d.roots[i];
        }
        Ok(())
    }
}
fn reread<H: SimpleHasher>(w: &World<H>, text: bool, st: &mut Stats) -> R {
    let s = MemStore::default();
    for (k, n) in w.store.nodes.borrow().iter() {
        let (k, n) = if text {
            let f = |e: serde_json::Error| e.to_string();
            (
                serde_json::from_str(&serde_json::to_string(k).map_err(f)?).map_err(f)?,
                serde_json::from_str(&serde_json::to_string(n).map_err(f)?).map_err(f)?,
            )
        } else {
            (dec::<NodeKey>(&enc(k)?)?, dec::<Node>(&enc(n)?)?)
        };
        s.put_node(k, n);
    }
    ck!(s.nodes.borrow().len() == w.store.nodes.borrow().len(), "node keys collide once decoded");
    for (k, vs) in w.store.values.borrow().iter() {
        for (ver, v) in vs {
            s.put_val(*ver, dec::<KeyHash>(&enc(&kh(k))?)?.0, dec(&enc(v)?)?);
        }
    }
    let s = Arc::new(s);
    for v in w.versions() {
        let a = observe::<H>(&w.store, v, &w.probes)?;
        let b = observe::<H>(&s, v, &w.probes)?;
        ck!(a == b, "version {v} answers differently once read back from encoded storage");
        st.add("evaluations", 1);
    }
    Ok(())
}
impl<H: SimpleHasher + Serialize + DeserializeOwned> Oracle<H> for C19 {
    fn commit(&self, w: &World<H>, d: &Done<H>, c: &Commit, st: &mut Stats) -> R {
        fresh();
        for b in &d.batches {
            self.batch::<H>(b, st)?;
        }
        for v in new_versions(d) {
            self.proofs(w, v, st)?;
        }
        self.updates(w, d, c, st)
    }
    fn end(&self, w: &World<H>, st: &mut Stats) -> R {
        reread(w, false, st)?;
        reread(w, true, st)
    }
}

/// The records of a batch only, and the whole store read back.
struct Records;
impl<H: SimpleHasher> Oracle<H> for Records {
    fn commit(&self, w: &World<H>, d: &Done<H>, _c: &Commit, st: &mut Stats) -> R {
        fresh();
        let c = C19 { deep: Deep { cuts: false, flips: false }, proofs: 0 };
        for b in &d.batches {
            c.batch::<H>(b, st)?;
        }
        let _ = w;
        Ok(())
    }
    fn end(&self, w: &World<H>, st: &mut Stats) -> R {
        reread(w, false, st)?;
        reread(w, true, st)
    }
}

pub fn c19(ctx: &Ctx) -> Info {
    let th = ctx.thorough();
    let cut = C19 { deep: Deep { cuts: true, flips: true }, proofs: 8 };
    let plain = C19 { deep: Deep { cuts: false, flips: false }, proofs: 8 };
    for u in universes() {
        if th || ["near", "prefixed", "chain", "wide"].contains(&u.name) {
            run_dfs::<Ser>(ctx, &Dfs::new(u.name, &u.keys, 1, if u.keys.len() < 5 { 3 } else { 2 }, 0, How::OneProof), &cut);
            run_dfs::<Ser>(ctx, &Dfs::new(u.name, &u.keys[..3], 2, if th { 2 } else { 1 }, 0, How::OneProof).empty_values(), &cut);
        }
    }
    if th {
        shapes_all::<Ser>(ctx, &cut, Load::Heavy, How::OneProof);
        bulk_shapes::<Ser>(ctx, &plain);
    } else {
        shapes_all::<Ser>(ctx, &plain, Load::Heavy, How::OneProof);
    }
    huge::<Ser>(ctx, &Records);
    // node keys with paths of every length, all versions of interest
    ctx.family("paths", 65 * 4, |i, st| {
        fresh();
        let d = Deep { cuts: true, flips: true };
        let (n, b) = (i % 65, bases()[i / 65]);
        let mut all = vec![];
        for last in [None, Some(0u8), Some(1), Some(8), Some(15)] {
            let mut nibs: Vec<u8> = (0..n).map(|j| nib(&b, j)).collect();
            if let (Some(x), Some(l)) = (last, nibs.last_mut()) {
                *l = x;
            }
            let p: NibblePath = path(&nibs);
            ck!(p.num_nibbles() == n, "a path of {n} nibbles has {}", p.num_nibbles());
            ck!(p.nibbles().map(u8::from).collect::<Vec<_>>() == nibs, "path {nibs:?} reads back as {p:?}");
            let bits: Vec<bool> = nibs.iter().flat_map(|x| (0..4).map(move |j| x >> (3 - j) & 1 == 1)).collect();
            ck!(p.bits().collect::<Vec<_>>() == bits, "bits of {p:?}");
            let mut rev = bits.clone();
            rev.reverse();
            ck!(p.bits().rev().collect::<Vec<_>>() == rev, "reversed bits of {p:?}");
            ck!(p.last().map(u8::from) == nibs.last().copied(), "last nibble of {p:?}");
            for (j, x) in nibs.iter().enumerate() {
                ck!(u8::from(p.get_nibble(j)) == *x, "nibble {j} of {p:?}");
            }
            both("nibble path", &p, d, st)?;
            for v in FIRSTS.into_iter().chain([u64::MAX - 1, u64::MAX]) {
                let k = NodeKey::new(v, p.clone());
                ck!(k.version() == v && *k.nibble_path() == p, "node key parts");
                both("node key", &k, Deep { flips: v == 9, ..d }, st)?;
                bin("stale index", &StaleNodeIndex { stale_since_version: v, node_key: k.clone() }, dbg, |a, b| a == b, Deep { flips: false, cuts: v == 9 }, st)?;
                all.push((enc(&k)?, k));
            }
        }
        for (i, (a, k)) in all.iter().enumerate() {
            for (b, l) in &all[..i] {
                ck!((a == b) == (k == l), "{k:?} and {l:?} share an encoding or not although they should not");
            }
        }
        Ok(())
    });
    // paths that differ only in length, or only in the last nibble: distinct encodings
    ctx.family("path-lengths", 4, |i, st| {
        fresh();
        let b = bases()[i];
        let d = Deep { cuts: false, flips: false };
        for n in 0..=64usize {
            let nibs: Vec<u8> = (0..n).map(|j| nib(&b, j)).collect();
            both("nibble path", &path(&nibs), d, st)?;
            for x in 0..16 {
                if n > 0 {
                    let mut m = nibs.clone();
                    m[n - 1] = x;
                    both("nibble path", &path(&m), d, st)?;
                    both("node key", &NodeKey::new(x as u64, path(&m)), d, st)?;
                }
            }
        }
        Ok(())
    });
    // values inside batches
    ctx.family("values", 270, |i, st| {
        fresh();
        let v: V = (0..i).map(|x| (x as u8).wrapping_mul(37)).collect();
        for (ver, x) in [(0u64, Some(v.clone())), (1, None), (u64::MAX, Some(v)), (5, Some(vec![]))] {
            let mut b = NodeBatch::default();
            let k = kh(&bases()[i % 4]);
            match x {
                Some(x) => b.insert_value(ver, k, x),
                None => b.extend(vec![], vec![((ver, k), None)]),
            }
            b.insert_node(root_key(ver), Node::Null);
            bin("node batch", &b, dbg, |a, b| a == b, Deep { cuts: true, flips: i % 16 == 0 }, st)?;
            let u = TreeUpdateBatch { node_batch: b, stale_node_index_batch: Default::default(), node_stats: vec![NodeStats { new_nodes: i, new_leaves: 1, stale_nodes: usize::MAX, stale_leaves: 0 }] };
            bin("update batch", &u, dbg, |a, b| a == b, Deep { cuts: true, flips: i % 16 == 0 }, st)?;
        }
        Ok(())
    });
    mc("every record, batch and proof produced over the explored histories and shapes, and node keys of every path length, each round-tripped through both encodings, extended, truncated at every byte and changed at every byte")
}

pub fn path(nibs: &[u8]) -> NibblePath {
    nibs.iter().map(|n| (*n).into()).collect()
}
