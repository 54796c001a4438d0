//! Checks that run one oracle over the common spaces of histories and shapes.
use crate::shapes::*;
use crate::spec::*;
use crate::store::*;
use crate::util::*;
use crate::world::*;
use crate::{ck, mc, Info};
use jmt::proof::{SparseMerkleProof, UpdateMerkleProof};
use jmt::storage::*;
use jmt::{JellyfishMerkleIterator, JellyfishMerkleTree, MissingRootError, RootHash, SimpleHasher, Version};
use sha2::Sha256;
use std::collections::{BTreeMap, BTreeSet, HashMap};
#[cfg(not(feature = "nostd"))]
use std::collections::HashMap as HashCache;
#[cfg(feature = "nostd")]
use hashbrown::HashMap as HashCache;
use std::rc::Rc;
use std::sync::Arc;

/// A second hash function, not a `Digest`: checks that nothing assumes SHA-256. Not
/// cryptographic, but without collisions on the inputs explored.
#[derive(Debug)]
pub struct Mix {
    s: [u64; 4],
    buf: u64,
    len: u64,
}
impl Mix {
    #[inline]
    fn word(&mut self, w: u64) {
        const M: [u64; 4] = [0xd6e8feb86659fd93, 0x9e3779b97f4a7c15, 0xff51afd7ed558ccd, 0xc4ceb9fe1a85ec53];
        for i in 0..4 {
            self.s[i] = (self.s[i] ^ w).rotate_left(23).wrapping_mul(M[i]) ^ self.s[(i + 1) % 4] >> 17;
        }
    }
}
impl SimpleHasher for Mix {
    fn new() -> Self {
        Mix {
            s: [0x243f6a8885a308d3, 0x13198a2e03707344, 0xa4093822299f31d0, 0x082efa98ec4e6c89],
            buf: 0,
            len: 0,
        }
    }
    fn update(&mut self, data: &[u8]) {
        let mut d = data;
        while !d.is_empty() {
            if self.len % 8 == 0 && d.len() >= 8 {
                self.word(u64::from_le_bytes(d[..8].try_into().unwrap()));
                self.len += 8;
                d = &d[8..];
            } else {
                self.buf = self.buf << 8 | d[0] as u64;
                self.len += 1;
                if self.len % 8 == 0 {
                    self.word(self.buf.swap_bytes());
                    self.buf = 0;
                }
                d = &d[1..];
            }
        }
    }
    fn finalize(mut self) -> [u8; 32] {
        self.word(self.buf);
        self.word(self.len ^ 0x5bd1e995);
        for _ in 0..3 {
            self.word(0x2545f4914f6cdd1d);
        }
        let mut out = [0; 32];
        for i in 0..4 {
            out[8 * i..8 * i + 8].copy_from_slice(&self.s[i].to_le_bytes());
        }
        out
    }
}

pub fn new_versions<H: SimpleHasher>(d: &Done<H>) -> std::ops::Range<Version> {
    d.first..d.first + d.roots.len() as u64
}

pub fn dec<T: borsh::BorshDeserialize>(b: &[u8]) -> R<T> {
    T::try_from_slice(b).map_err(|e| format!("decoding failed: {e}"))
}
pub fn enc<T: borsh::BorshSerialize>(t: &T) -> R<Vec<u8>> {
    borsh::to_vec(t).map_err(|e| format!("encoding failed: {e}"))
}

// ---------------------------------------------------------------- C01
pub struct C01;
impl C01 {
    fn read<H: SimpleHasher>(w: &World<H>, v: Version, st: &mut Stats) -> R {
        let t = w.tree();
        let m = w.at(v);
        for k in w.probes.iter() {
            let want = m.get(k);
            let got = e2s("get", t.get(kh(k), v))?;
            ck!(got.as_ref() == want, "get({}, {v}) = {got:?}, should be {want:?}", kx(k));
            let (got, _) = e2s("get_with_proof", t.get_with_proof(kh(k), v))?;
            ck!(
                got.as_ref() == want,
                "get_with_proof({}, {v}) = {got:?}, should be {want:?}",
                kx(k)
            );
            st.add("evaluations", 2);
            if !m.is_empty() {
                let got = e2s("get_with_exclusion_proof", t.get_with_exclusion_proof(kh(k), v))?
                    .ok()
                    .map(|x| x.0);
                ck!(
                    got.as_ref() == want,
                    "get_with_exclusion_proof({}, {v}) = {got:?}, should be {want:?}",
                    kx(k)
                );
                st.add("evaluations", 1);
            }
        }
        Ok(())
    }
}
impl<H: SimpleHasher> Oracle<H> for C01 {
    fn commit(&self, w: &World<H>, d: &Done<H>, _c: &Commit, st: &mut Stats) -> R {
        for v in new_versions(d) {
            C01::read(w, v, st)?;
        }
        Ok(())
    }
    fn end(&self, w: &World<H>, st: &mut Stats) -> R {
        for v in w.versions() {
            C01::read(w, v, st)?;
        }
        Ok(())
    }
}
pub fn c01(ctx: &Ctx) -> Info {
    common::<Sha256>(ctx, &C01, Load::Medium, How::Sets);
    let us = universes();
    run_dfs::<Mix>(ctx, &Dfs::new("six-proofs", &us[6].keys[..4], 1, 3, 2, How::OneProof), &C01);
    grouped_how::<Mix>(ctx, &C01, 1, How::Sets);
    grouped_how::<Mix>(ctx, &C01, 1, How::Proofs);
    bulk_shapes::<Mix>(ctx, &C01);
    mc("every history over small key universes to the stated depth, and every tree shape of the sweeps; all probes read at all versions")
}

/// Shape sweep through the non-deleting bulk interface: whole sets, then additions and overwrites.
pub fn bulk_shapes<H: SimpleHasher>(ctx: &Ctx, o: &impl Oracle<H>) {
    let ms = masks(false);
    let bs = bases();
    ctx.family("bulk-fans", ms.len(), |i, st| {
        let p = [0, 0, 1, 3, 63][i % 5];
        let tw = [0u16, 0xffff, 0x0f0f][i % 3] & ms[i];
        let keys = fan(&bs[3], p, ms[i], tw);
        let cut = keys.len() / 2;
        let c = |sets: Vec<Ups>| Commit { sets, how: How::Bulk };
        let mut cs = vec![];
        if cut > 0 {
            cs.push(c(vec![puts(&keys[cut..], va)]));
        }
        cs.push(c(vec![puts(&keys, vb), puts(&keys[..1], va)]));
        cs.push(Commit { sets: vec![vec![(keys[0], None)]], how: How::Sets });
        cs.push(c(vec![puts(&keys[..1], vb)]));
        let mut pr = probes(&keys, 24);
        pr.extend((0..16).map(|n| set_nib(&bs[3], p, n)));
        run_scen::<H>(Scen { first: i as u64 % 2, probes: pr, commits: cs }, o, st)
    });
    let ds = depths(ctx.thorough());
    let n = ds.len();
    ctx.family("bulk-triples", n * n, |i, st| {
        let (a, b) = (ds[i / n], ds[i % n]);
        let base = bs[if i % 2 == 0 { 3 } else { 1 }];
        let mut keys = vec![base, flip(&base, a)];
        if a != b {
            keys.push(flip(&base, b));
        }
        let c = |sets: Vec<Ups>| Commit { sets, how: How::Bulk };
        let cs = vec![
            c(vec![puts(&keys[..1], va), puts(&keys[1..], vb)]),
            c(vec![puts(&keys, vb)]),
        ];
        run_scen::<H>(Scen { first: 0, probes: probes(&keys, 14), commits: cs }, o, st)
    });
    // from every small tree every bulk insertion
    let us = universes();
    for u in [&us[4], &us[5], &us[6]] {
        let k = &u.keys[..u.keys.len().min(if ctx.thorough() { 6 } else { 5 })];
        from_all_trees::<H>(ctx, &format!("bulk-transitions-{}", u.name), k, &mixtures(k, false), false, How::Bulk, o);
    }
    same_values::<H>(ctx, o, How::Bulk);
}

// ---------------------------------------------------------------- C02
pub struct C02;
impl<H: SimpleHasher> Oracle<H> for C02 {
    fn commit(&self, w: &World<H>, d: &Done<H>, _c: &Commit, st: &mut Stats) -> R {
        for v in new_versions(d) {
            let want = spec_root::<H>(w.at(v));
            let got = w.root_at(v);
            ck!(*got == want, "write reported root {} for version {v}, contents hash to {}", hex(got), hex(&want));
            let r = e2s("get_root_hash", w.tree().get_root_hash(v))?;
            ck!(r.0 == want, "get_root_hash({v}) = {r:?}, contents hash to {}", hex(&want));
            let r = e2s("get_root_hash_option", w.tree().get_root_hash_option(v))?;
            ck!(r.map(|r| r.0) == Some(want), "get_root_hash_option({v}) = {r:?}, contents hash to {}", hex(&want));
            st.add("evaluations", 3);
        }
        Ok(())
    }
    fn end(&self, w: &World<H>, st: &mut Stats) -> R {
        for v in w.versions() {
            let r = e2s("get_root_hash", w.tree().get_root_hash(v))?;
            ck!(r.0 == *w.root_at(v), "the root of version {v} changed later");
            st.add("evaluations", 1);
        }
        Ok(())
    }
}
pub fn c02(ctx: &Ctx) -> Info {
    common::<Sha256>(ctx, &C02, Load::Light, How::Sets);
    let us = universes();
    run_dfs::<Mix>(ctx, &Dfs::new("six-mix", &us[6].keys[..4], 2, 2, 0, How::Sets), &C02);
    run_dfs::<Sha256>(ctx, &Dfs::new("near-proofs", &us[0].keys, 2, 2, 0, How::Proofs), &C02);
    bulk_shapes::<Sha256>(ctx, &C02);
    fixpoint::<Sha256>(ctx);
    // different contents, different roots
    ctx.family("distinct-contents", us.len() * 2, |i, st| {
        let keys = &us[i / 2].keys;
        // value hashes and keys that could be mistaken for each other or for nodes
        let vals: Vec<V> = vec![vec![], va(0), keys[0].to_vec(), PLACEHOLDER.to_vec()];
        let vals = &vals[i % 2 * 2..];
        let n = if ctx.thorough() { 6 } else { 5 }.min(keys.len()) as u32;
        let mut seen: HashMap<K, Map> = HashMap::new();
        for x in 0..3usize.pow(n) {
            let mut y = x;
            let mut m = Map::new();
            for k in &keys[..n as usize] {
                if y % 3 > 0 {
                    m.insert(*k, vals[y % 3 - 1].clone());
                }
                y /= 3;
            }
            let mut w = World::<Sha256>::new(0, Rc::new(vec![]));
            w.commit(&Rc::new(one(m.iter().map(|(k, v)| (*k, Some(v.clone()))).collect())))?;
            st.add("evaluations", 1);
            st.add("traces", 1);
            if let Some(o) = seen.insert(w.roots[0], m.clone()) {
                return Err(format!("different contents have the same root {}: {o:?} and {m:?}", hex(&w.roots[0])));
            }
        }
        Ok(())
    });
    mc("states are tree contents; the fixpoint family applies every update to every reachable contents of a universe, each state being entered in canonical and in detoured physical form")
}

/// All contents of a key universe, closed under every update: from the canonical tree of every
/// contents and from detoured ones (built by inserting other keys and deleting them again, with
/// children of many different versions), every update must lead to the canonical tree (same node
/// structure, same hashes) of the updated contents. With version numbers erased this is the full
/// reachable state space, so by induction it covers histories of any length over the universe.
pub fn fixpoint<H: SimpleHasher>(ctx: &Ctx) {
    let us = universes();
    let list: Vec<usize> = if ctx.thorough() { vec![0, 1, 2, 3, 4, 5, 6] } else { vec![1, 3, 4, 5] };
    for ui in list {
        let keys: Vec<K> = us[ui].keys.clone();
        let n = keys.len();
        let states = 3usize.pow(n as u32);
        let contents = |mut x: usize| -> Map {
            let mut m = Map::new();
            for (i, k) in keys.iter().enumerate() {
                match x % 3 {
                    1 => {
                        m.insert(*k, va(i));
                    }
                    2 => {
                        m.insert(*k, vb(i));
                    }
                    _ => {}
                }
                x /= 3;
            }
            m
        };
        ctx.family(&format!("fixpoint-{}", us[ui].name), states * 2, |case, st| {
            let ops = alphabet(&keys, if n <= 4 { 2 } else { 1 }, false, How::Sets);
            let m = contents(case / 2);
            let mut w = World::<H>::new(0, Rc::new(vec![]));
            if case % 2 == 0 {
                // canonical: one write
                let u: Ups = m.iter().map(|(k, v)| (*k, Some(v.clone()))).collect();
                w.commit(&Rc::new(one(u)))?;
            } else {
                // detour: every key written separately with the other value, the missing ones
                // removed, the rest corrected, each in its own version
                for (i, k) in keys.iter().enumerate().rev() {
                    w.commit(&Rc::new(one(vec![(*k, Some(va(i + 50)))])))?;
                }
                for k in &keys {
                    if !m.contains_key(k) {
                        w.commit(&Rc::new(one(vec![(*k, None)])))?;
                    }
                }
                for (k, v) in &m {
                    w.commit(&Rc::new(one(vec![(*k, Some(v.clone()))])))?;
                }
            }
            st.state(fp(&m));
            let v0 = w.latest().unwrap();
            let canon = |m: &Map| -> R<Vec<(Vec<u8>, u64)>> {
                let st = MemStore::default();
                let u: Ups = m.iter().map(|(k, v)| (*k, Some(v.clone()))).collect();
                let (_, b, _) = e2s("write", compute::<H>(&st, &[u], How::Sets, 0))?;
                st.apply(&b)?;
                shape::<H>(&st, 0)
            };
            ck!(shape::<H>(&w.store, v0)? == canon(&m)?, "tree is not in canonical form");
            for c in &ops {
                let d = w.commit(c)?;
                st.add("transitions", 1);
                Oracle::<H>::commit(&C02, &w, &d, c, st)?;
                let v = w.latest().unwrap();
                ck!(shape::<H>(&w.store, v)? == canon(&w.cur())?, "tree is not in canonical form after an update");
                w.undo(&d);
            }
            Ok(())
        });
    }
}

// ---------------------------------------------------------------- C03
pub struct C03;
pub fn flip_root(r: &K, b: usize) -> RootHash {
    RootHash(flip(r, b))
}
impl<H: SimpleHasher> Oracle<H> for C03 {
    fn commit(&self, w: &World<H>, d: &Done<H>, _c: &Commit, st: &mut Stats) -> R {
        for v in new_versions(d) {
            check_proofs(w, v, st)?;
        }
        Ok(())
    }
    fn end(&self, w: &World<H>, st: &mut Stats) -> R {
        for v in w.versions() {
            let root = RootHash(*w.root_at(v));
            let m = w.at(v);
            for k in w.probes.iter() {
                let (_, p) = e2s("get_with_proof", w.tree().get_with_proof(kh(k), v))?;
                ck!(p.verify(root, kh(k), m.get(k)).is_ok(), "proof of {} at old version {v} does not verify", kx(k));
                st.add("evaluations", 1);
            }
        }
        Ok(())
    }
}
pub fn check_proofs<H: SimpleHasher>(w: &World<H>, v: Version, st: &mut Stats) -> R {
    let t = w.tree();
    let m = w.at(v).clone();
    let rk = *w.root_at(v);
    let root = RootHash(rk);
    for (n, k) in w.probes.iter().enumerate() {
        let (_, p) = e2s("get_with_proof", t.get_with_proof(kh(k), v))?;
        check_one_proof::<H>(&p, &root, k, m.get(k), n, st)?;
        // the root of another version with other contents
        if v > w.first && *w.root_at(v - 1) != rk {
            ck!(
                p.verify(RootHash(*w.root_at(v - 1)), kh(k), m.get(k)).is_err(),
                "proof of {} at {v} verifies against the root of {}",
                kx(k),
                v - 1
            );
        }
        if !m.is_empty() {
            if let Ok((val, p)) = e2s("get_with_exclusion_proof", t.get_with_exclusion_proof(kh(k), v))? {
                check_one_proof::<H>(&p, &root, k, Some(&val), n, st)?;
            }
        }
    }
    Ok(())
}
fn check_one_proof<H: SimpleHasher>(
    p: &SparseMerkleProof<H>,
    root: &RootHash,
    k: &K,
    val: Option<&V>,
    n: usize,
    st: &mut Stats,
) -> R {
    st.add("evaluations", 1);
    let what = || format!("proof of {} {}", kx(k), if val.is_some() { "present" } else { "absent" });
    if let Err(e) = p.verify(*root, kh(k), val) {
        return Err(format!("{} does not verify: {e}", what()));
    }
    // by our own verifier, from the encoded proof
    let q: PProof = dec(&enc(p)?)?;
    if let Err(e) = q.verify::<H>(&root.0, k, val.map(|v| &v[..])) {
        return Err(format!("{} verifies, but is not a correct proof: {e}", what()));
    }
    match val {
        Some(val) => {
            ck!(p.verify_existence(*root, kh(k), val).is_ok(), "{}: verify_existence disagrees", what());
            ck!(p.verify_nonexistence(*root, kh(k)).is_err(), "{} also verifies for absence", what());
            for o in other_values(val) {
                ck!(p.verify_existence(*root, kh(k), &o).is_err(), "{} verifies for another value", what());
                ck!(p.verify(*root, kh(k), Some(&o)).is_err(), "{} verifies for another value", what());
            }
            ck!(p.leaf().is_some_and(|l| {
                l == LeafNode::new(kh(k), jmt::ValueHash::with::<H>(val)).into()
            }), "{}: leaf() is not the leaf of the key", what());
        }
        None => {
            ck!(p.verify_nonexistence(*root, kh(k)).is_ok(), "{}: verify_nonexistence disagrees", what());
            ck!(p.verify_existence(*root, kh(k), b"").is_err(), "{} also verifies for existence", what());
            ck!(p.verify_existence(*root, kh(k), va(0)).is_err(), "{} also verifies for existence", what());
            if let Some((_, vh)) = q.leaf {
                ck!(p.verify_existence(*root, kh(k), vh).is_err(), "{} also verifies for existence", what());
            }
        }
    }
    if let Some((lk, _)) = q.leaf {
        // root_hash() recomputes the root from the leaf's own path
        ck!(p.root_hash() == *root, "{}: root_hash() of the proof of leaf {} is not the root", what(), kx(&lk));
    }
    for b in [0, 7, 255, 128 + n % 100] {
        ck!(p.verify(flip_root(&root.0, b), kh(k), val).is_err(), "{} verifies against a wrong root", what());
    }
    Ok(())
}
pub fn other_values(v: &V) -> Vec<V> {
    let mut o = vec![];
    let mut a = v.clone();
    a.push(0);
    o.push(a);
    if !v.is_empty() {
        o.push(v[..v.len() - 1].to_vec());
        let mut a = v.clone();
        a[0] ^= 1;
        o.push(a);
        let mut a = v.clone();
        *a.last_mut().unwrap() ^= 0x80;
        o.push(a);
        o.push(vec![]);
    }
    o
}
pub fn c03(ctx: &Ctx) -> Info {
    common::<Sha256>(ctx, &C03, Load::Heavy, How::Sets);
    let us = universes();
    run_dfs::<Mix>(ctx, &Dfs::new("six-mix", &us[6].keys[..4], 1, 3, 0, How::Sets), &C03);
    bulk_shapes::<Mix>(ctx, &C03);
    mc("proofs for every probe key (present, absent, around every divergence) at every version of every explored history")
}

// ---------------------------------------------------------------- C05
pub struct C05;
pub fn kups(u: &Ups) -> Vec<(jmt::KeyHash, Option<V>)> {
    u.iter().map(|(k, v)| (kh(k), v.clone())).collect()
}
impl<H: SimpleHasher> Oracle<H> for C05 {
    fn commit(&self, w: &World<H>, d: &Done<H>, c: &Commit, st: &mut Stats) -> R {
        ck!(d.proofs.len() == d.roots.len(), "{} proofs for {} versions", d.proofs.len(), d.roots.len());
        let mut old = w.root_before(d);
        let mut before = w.map_before(d);
        for (i, p) in d.proofs.iter().enumerate() {
            let new = d.roots[i];
            let v = d.first + i as u64;
            let bytes = enc(p)?;
            let verify = |o: &K, n: &K, u: &Ups| -> R<bool> {
                let p: UpdateMerkleProof<H> = dec(&bytes)?;
                Ok(p.verify_update(RootHash(*o), RootHash(*n), kups(u)).is_ok())
            };
            let u = &c.sets[i];
            st.add("evaluations", 1);
            {
                let p: UpdateMerkleProof<H> = dec(&bytes)?;
                if let Err(e) = p.verify_update(RootHash(old), RootHash(new), kups(u)) {
                    return Err(format!("update proof of version {v} does not verify: {e:#}"));
                }
            }
            let after = w.at(v);
            ck!(spec_root::<H>(after) == new, "the proved root of version {v} is not that of its contents");
            // wrong roots
            if old != new {
                ck!(!verify(&old, &old, u)?, "update proof accepts the old root as new");
                ck!(!verify(&new, &new, u)?, "update proof accepts the new root as old");
            }
            ck!(!verify(&old, &flip(&new, 3), u)?, "update proof accepts a wrong new root");
            ck!(!verify(&old, &PLACEHOLDER, u)? || new == PLACEHOLDER, "update proof accepts the empty root");
            if !u.is_empty() {
                ck!(!verify(&flip(&old, 255), &new, u)?, "update proof accepts a wrong old root");
                ck!(!verify(&old, &new, &u[..u.len() - 1].to_vec())?, "update proof accepts fewer updates");
            }
            let mut more = u.clone();
            more.push((w.probes[0], None));
            ck!(!verify(&old, &new, &more)?, "update proof accepts more updates");
            // other updates with different results
            for j in 0..u.len() {
                let mut alts: Vec<(K, Option<V>)> = vec![];
                let (k, val) = &u[j];
                match val {
                    Some(val) => {
                        alts.push((*k, None));
                        alts.extend(other_values(val).into_iter().map(|o| (*k, Some(o))));
                    }
                    None => {
                        alts.push((*k, Some(vec![])));
                        alts.push((*k, Some(va(0))));
                    }
                }
                for b in [255, 4, 0] {
                    alts.push((flip(k, b), val.clone()));
                }
                alts.push((w.probes[(j + 1) % w.probes.len()], val.clone()));
                for a in alts {
                    let mut u2 = u.clone();
                    u2[j] = a;
                    if apply_updates(&before, &u2) == **after {
                        continue;
                    }
                    ck!(!verify(&old, &new, &u2)?, "update proof of {:?} also accepts {:?}", one(u.clone()), one(u2.clone()));
                    st.add("evaluations", 1);
                }
            }
            old = new;
            before = after.clone();
        }
        // proved and unproved writes agree
        if d.batches.len() == 1 {
            w.before(d, || -> R {
                let (r, b, _) = e2s("write", compute::<H>(&w.store, &c.sets, How::Sets, d.first))?;
                ck!(r == d.roots, "writing with proofs gives other roots");
                ck!(b == d.batches[0], "writing with proofs gives another batch");
                Ok(())
            })?;
        }
        Ok(())
    }
}
pub fn c05(ctx: &Ctx) -> Info {
    common::<Sha256>(ctx, &C05, Load::Heavy, How::Proofs);
    let us = universes();
    run_dfs::<Mix>(ctx, &Dfs::new("six-mix", &us[6].keys[..4], 2, 2, 0, How::OneProof), &C05);
    if ctx.thorough() {
        run_dfs::<Sha256>(ctx, &Dfs::new("six", &us[6].keys, 2, 2, 0, How::OneProof), &C05);
        run_dfs::<Sha256>(ctx, &Dfs::new("near", &us[0].keys, 2, 3, 0, How::Proofs), &C05);
        run_dfs::<Sha256>(ctx, &Dfs::new("near", &us[0].keys, 3, 2, 0, How::Proofs), &C05);
    }
    mc("every batch of every explored history is written with proofs; each proof is checked for the true transition and for systematically altered roots and update lists")
}

// ---------------------------------------------------------------- C09
pub struct C09;
/// Everything a reader can observe at a version, in one value.
pub fn observe<H: SimpleHasher>(store: &std::sync::Arc<MemStore>, v: Version, probes: &[K]) -> R<u64> {
    let t = jmt::JellyfishMerkleTree::<MemStore, H>::new(store);
    let mut h: Vec<u64> = vec![];
    let r = e2s("get_root_hash", t.get_root_hash(v))?;
    h.push(fp(&r.0));
    h.push(e2s("get_leaf_count", t.get_leaf_count(v))? as u64);
    for k in probes {
        let (val, p) = e2s("get_with_proof", t.get_with_proof(kh(k), v))?;
        ck!(p.verify(r, kh(k), val.as_ref()).is_ok(), "proof of {} at version {v} does not verify", kx(k));
        h.push(fp(&val));
        h.push(fp(&enc(&p)?));
        h.push(fp(&e2s("get", t.get(kh(k), v))?));
    }
    let it = e2s("iterator", JellyfishMerkleIterator::new(store.clone(), v, kh(&[0; 32])))?;
    for x in it {
        let (k, val) = e2s("iteration", x)?;
        h.push(fp(&(k.0, val)));
    }
    Ok(fp(&h))
}
impl<H: SimpleHasher> Oracle<H> for C09 {
    fn commit(&self, _w: &World<H>, d: &Done<H>, _c: &Commit, _st: &mut Stats) -> R {
        for x in &d.conflicts {
            ck!(!x.contains("stale twice"), "{x}");
        }
        Ok(())
    }
    fn end(&self, w: &World<H>, st: &mut Stats) -> R {
        let Some(latest) = w.latest() else { return Ok(()) };
        let versions: Vec<Version> = w.versions().collect();
        let mut reach: BTreeMap<Version, BTreeSet<NodeKey>> = BTreeMap::new();
        for v in &versions {
            reach.insert(*v, walk::<H>(&w.store, *v)?.0);
        }
        let mut stale: BTreeMap<NodeKey, Version> = BTreeMap::new();
        for s in w.store.stale.borrow().iter() {
            if let Some(o) = stale.insert(s.node_key.clone(), s.stale_since_version) {
                return Err(format!("node {:?} is reported stale since {o} and since {}", s.node_key, s.stale_since_version));
            }
        }
        for k in w.store.nodes.borrow().keys() {
            st.add("evaluations", 1);
            let last_use = versions.iter().rev().find(|v| reach[*v].contains(k));
            let first_unused = match last_use {
                Some(v) => v + 1,
                None => k.version(),
            };
            match stale.get(k) {
                Some(s) => {
                    ck!(first_unused <= latest, "node {k:?} is reported stale since {s} but version {latest} uses it");
                    ck!(*s == first_unused || (last_use.is_none() && *s <= latest),
                        "node {k:?} is reported stale since {s}, but is unused since {first_unused}");
                }
                None => ck!(first_unused > latest, "node {k:?} is unused since version {first_unused} but never reported stale"),
            }
        }
        for k in stale.keys() {
            ck!(w.store.raw_node(k).is_some(), "stale index names a node that is not stored: {k:?}");
        }
        // pruning at every point
        let few: Vec<K> = w.probes.iter().take(8).copied().collect();
        let mut obs = BTreeMap::new();
        let cuts: Vec<Version> = if versions.len() <= 8 {
            versions.clone()
        } else {
            let n = versions.len();
            vec![versions[0], versions[1], versions[n / 3], versions[n / 2], versions[n - 2], versions[n - 1]]
        };
        let watch: Vec<Version> = if versions.len() <= 8 { versions.clone() } else {
            versions.iter().copied().filter(|v| cuts.contains(v) || cuts.contains(&(v + 1)) || v % 7 == 0).collect()
        };
        for v in &watch {
            obs.insert(*v, observe::<H>(&w.store, *v, &few)?);
        }
        let store = std::sync::Arc::new((*w.store).clone());
        for (i, cut) in cuts.iter().enumerate() {
            // progressively, and for short histories also in one step
            let one_step;
            let s = if versions.len() <= 8 && i > 0 && i % 2 == 0 {
                one_step = std::sync::Arc::new((*w.store).clone());
                &one_step
            } else {
                &store
            };
            s.prune(*cut)?;
            st.add("prunings", 1);
            let mut live: BTreeSet<&NodeKey> = BTreeSet::new();
            for v in versions.iter().filter(|v| *v >= cut) {
                live.extend(reach[v].iter());
            }
            let left = s.nodes.borrow().len();
            ck!(left == live.len(), "after pruning to {cut}, {left} nodes are stored but {} are in use", live.len());
            for v in watch.iter().filter(|v| *v >= cut) {
                ck!(observe::<H>(s, *v, &few)? == obs[v], "after pruning to {cut}, version {v} reads differently");
                st.add("evaluations", 1);
            }
        }
        store.prune(latest)?;
        // continue writing on the pruned store
        let mut follow: Vec<Ups> = vec![vec![]];
        for k in w.probes.iter().take(3) {
            follow.push(vec![(*k, Some(va(77)))]);
            follow.push(vec![(*k, None)]);
        }
        for u in follow {
            let want = spec_root::<H>(&apply_updates(&w.cur(), &u));
            let (r, _, _) = e2s("write after pruning", compute::<H>(&store, &[u], How::Sets, latest + 1))?;
            ck!(r[0] == want, "a write after pruning gives a wrong root");
        }
        Ok(())
    }
}
pub fn c09(ctx: &Ctx) -> Info {
    common::<Sha256>(ctx, &C09, Load::Heavy, How::Sets);
    let us = universes();
    let th = ctx.thorough();
    run_dfs::<Mix>(ctx, &Dfs::new("six-mix", &us[6].keys[..4], 1, 4, 0, How::Sets), &C09);
    run_dfs::<Mix>(ctx, &Dfs::new("near-mix", &us[0].keys, 1, if th { 6 } else { 5 }, 0, How::Sets), &C09);
    run_dfs::<Mix>(ctx, &Dfs::new("near-mix", &us[0].keys, 2, if th { 3 } else { 2 }, 1, How::OneProof), &C09);
    grouped::<Mix>(ctx, &C09);
    bulk_shapes::<Mix>(ctx, &C09);
    mc("after every explored history: the stale index is compared with the exact set of nodes each version uses, and the store is pruned at every version")
}

/// Every sequence of four single updates written in every grouping into calls.
pub fn grouped<H: SimpleHasher>(ctx: &Ctx, o: &impl Oracle<H>) {
    grouped_less::<H>(ctx, o, 0)
}
/// As `grouped`, with sequences shorter by `less`.
pub fn grouped_less<H: SimpleHasher>(ctx: &Ctx, o: &impl Oracle<H>, less: usize) {
    grouped_how::<H>(ctx, o, less, How::Sets)
}
pub fn grouped_how<H: SimpleHasher>(ctx: &Ctx, o: &impl Oracle<H>, less: usize, how: How) {
    let us = universes();
    let th = ctx.thorough();
    for (name, keys, len) in [
        ("near", &us[0].keys[..], if th { 5usize } else { 4 }),
        ("near2", &us[0].keys[..2], if th { 6 } else { 5 }),
        ("wide", &us[3].keys[..], if th { 4 } else { 3 }),
    ] {
        let mut s: Vec<Ups> = singles(keys, false).into_iter().map(|x| vec![x]).collect();
        s.push(vec![]);
        s.push(vec![(keys[0], Some(va(9))), (keys[1], None)]);
        let len = len - less;
        let n = s.len().pow(len as u32);
        let groupings = 1usize << (len - 1);
        ctx.family(&format!("grouped-{name}-{len}-{how:?}"), n, |case, st| {
            let mut x = case;
            let seq: Vec<&Ups> = (0..len)
                .map(|_| {
                    let u = &s[x % s.len()];
                    x /= s.len();
                    u
                })
                .collect();
            for g in 1..groupings {
                let mut cs: Vec<Commit> = vec![];
                for (i, u) in seq.iter().enumerate() {
                    if i == 0 || g >> (i - 1) & 1 == 0 {
                        cs.push(Commit { sets: vec![(*u).clone()], how });
                    } else {
                        cs.last_mut().unwrap().sets.push((*u).clone());
                    }
                }
                run_scen::<H>(Scen { first: case as u64 % 2, probes: keys.to_vec(), commits: cs }, o, st)?;
            }
            Ok(())
        });
    }
}

// ---------------------------------------------------------------- C11
pub struct C11 {
    pub groupings: bool,
}
fn compare<H: SimpleHasher>(w: &World<H>, o: &MemStore, roots: &[K], what: &str) -> R {
    for (i, v) in w.versions().enumerate() {
        ck!(roots[i] == w.roots[i], "{what}: other root for version {v}");
        ck!(shape::<H>(o, v)? == shape::<H>(&w.store, v)?, "{what}: other tree at version {v}");
    }
    ck!(*o.values.borrow() == *w.store.values.borrow(), "{what}: other stored values");
    Ok(())
}
impl<H: SimpleHasher> Oracle<H> for C11 {
    fn commit(&self, w: &World<H>, d: &Done<H>, c: &Commit, st: &mut Stats) -> R {
        // pure and repeatable; other interfaces; other orders
        w.before(d, || -> R {
            let again = e2s("write", compute::<H>(&w.store, &c.sets, if c.sets.len() == 1 { How::One } else { How::Sets }, d.first))?;
            ck!(again.0 == d.roots, "repeating the write gives other roots");
            if d.batches.len() == 1 && c.how != How::Bulk {
                ck!(again.1 == d.batches[0], "repeating the write gives another batch");
            }
            let twice = e2s("write", compute::<H>(&w.store, &c.sets, How::Sets, d.first))?;
            ck!(twice.1 == again.1 && twice.0 == again.0, "the same call gives different results");
            let p = e2s("write", compute::<H>(&w.store, &c.sets, How::Proofs, d.first))?;
            ck!(p.0 == d.roots && p.1 == again.1, "writing with proofs gives another result");
            st.add("evaluations", 3);
            if c.sets.iter().all(|s| !s.is_empty() && s.iter().all(|x| x.1.is_some())) {
                let b = e2s("bulk write", compute::<H>(&w.store, &c.sets, How::Bulk, d.first))?;
                ck!(b.0 == d.roots, "the bulk interface gives other roots");
                let tmp = (*w.store).clone();
                tmp.apply(&b.1)?;
                let tmp2 = (*w.store).clone();
                tmp2.apply(&again.1)?;
                for v in new_versions(d) {
                    ck!(shape::<H>(&tmp, v)? == shape::<H>(&tmp2, v)?, "the bulk interface gives another tree at {v}");
                }
                ck!(*tmp.values.borrow() == *tmp2.values.borrow(), "the bulk interface stores other values");
                // the same with the hashes of all new nodes supplied
                let mut hs: Vec<HashCache<NibblePath, K>> = vec![HashCache::new(); c.sets.len()];
                for k in b.1.node_batch.nodes().keys() {
                    let i = (k.version() - d.first) as usize;
                    let p = k.nibble_path();
                    let nibs: Vec<u8> = p.nibbles().map(u8::from).collect();
                    let sub: Vec<(K, K)> = leaves::<H>(w.at(k.version()))
                        .into_iter()
                        .filter(|(k, _)| nibs.iter().enumerate().all(|(j, x)| nib(k, j) == *x))
                        .collect();
                    ck!(i < hs.len(), "the batch holds a node of another version");
                    hs[i].insert(p.clone(), root_of::<H>(&sub, 4 * nibs.len()));
                }
                let sets: Vec<Vec<(jmt::KeyHash, V)>> = c.sets.iter().map(|u| u.iter().map(|(k, v)| (kh(k), v.clone().unwrap())).collect()).collect();
                let h = e2s("bulk write with hashes", w.tree().batch_put_value_sets(sets, Some(hs.iter().collect()), d.first))?;
                ck!(h.0.iter().map(|r| r.0).eq(b.0.iter().copied()) && h.1 == b.1, "the bulk interface gives another result with the node hashes supplied");
                st.add("evaluations", 2);
            }
            for (i, s) in c.sets.iter().enumerate() {
                if s.len() < 2 {
                    continue;
                }
                // last update of each key, in every order (up to 4) or in three orders
                let mut last: BTreeMap<K, Option<V>> = BTreeMap::new();
                for (k, v) in s {
                    last.insert(*k, v.clone());
                }
                let l: Ups = last.into_iter().collect();
                for o in orders(l.len()) {
                    let mut sets = c.sets.clone();
                    sets[i] = o.iter().map(|x| l[*x].clone()).collect();
                    let q = e2s("write", compute::<H>(&w.store, &sets, How::Sets, d.first))?;
                    ck!(q.0 == d.roots, "the order of updates or repeats of a key change the root");
                    let tmp = (*w.store).clone();
                    tmp.apply(&q.1)?;
                    let tmp2 = (*w.store).clone();
                    tmp2.apply(&again.1)?;
                    for v in new_versions(d) {
                        ck!(shape::<H>(&tmp, v)? == shape::<H>(&tmp2, v)?, "the order of updates changes the tree at {v}");
                    }
                    ck!(*tmp.values.borrow() == *tmp2.values.borrow(), "the order of updates changes the stored values");
                    st.add("evaluations", 1);
                }
            }
            Ok(())
        })
    }
    fn end(&self, w: &World<H>, st: &mut Stats) -> R {
        if !self.groupings {
            return Ok(());
        }
        // every grouping of the whole history into calls
        let sets: Vec<Ups> = w.hist.iter().flat_map(|c| c.sets.iter().cloned()).collect();
        let n = sets.len();
        let all: Vec<usize> = if n <= 6 {
            (0..1usize << (n - 1)).collect()
        } else {
            vec![0, usize::MAX, 0x5555_5555_5555_5555, 0x3333_3333_3333_3333]
        };
        for g in all {
            let o = MemStore::default();
            let mut roots = vec![];
            let mut i = 0;
            while i < n {
                let mut j = i + 1;
                while j < n && (g >> ((j - 1) % 64)) & 1 == 1 {
                    j += 1;
                }
                let how = if g % 3 == 1 { How::Proofs } else { How::Sets };
                let (r, b, _) = e2s("write", compute::<H>(&o, &sets[i..j], how, w.first + i as u64))?;
                o.apply_overwrite(&b);
                roots.extend(r);
                i = j;
            }
            ck!(roots.len() == n, "{} roots for {n} versions", roots.len());
            compare(w, &o, &roots, "grouping versions into one call")?;
            st.add("evaluations", 1);
        }
        Ok(())
    }
}
pub fn orders(n: usize) -> Vec<Vec<usize>> {
    if n <= 4 {
        let mut out = vec![];
        fn go(p: &mut Vec<usize>, n: usize, out: &mut Vec<Vec<usize>>) {
            if p.len() == n {
                out.push(p.clone());
                return;
            }
            for i in 0..n {
                if !p.contains(&i) {
                    p.push(i);
                    go(p, n, out);
                    p.pop();
                }
            }
        }
        go(&mut vec![], n, &mut out);
        out
    } else {
        let id: Vec<usize> = (0..n).collect();
        let rev: Vec<usize> = (0..n).rev().collect();
        let mut evens: Vec<usize> = (0..n).step_by(2).collect();
        evens.extend((1..n).step_by(2).rev());
        vec![id, rev, evens]
    }
}
pub fn c11(ctx: &Ctx) -> Info {
    let th = ctx.thorough();
    common::<Sha256>(ctx, &C11 { groupings: false }, Load::Heavy, How::Sets);
    let us = universes();
    let o = C11 { groupings: true };
    run_dfs::<Mix>(ctx, &Dfs::new("g-near", &us[0].keys, 1, if th { 5 } else { 4 }, 0, How::Sets), &o);
    run_dfs::<Mix>(ctx, &Dfs::new("g-near2", &us[0].keys[..2], 1, if th { 6 } else { 5 }, 0, How::Sets), &o);
    run_dfs::<Mix>(ctx, &Dfs::new("g-chain", &us[4].keys, 1, if th { 4 } else { 3 }, 3, How::Sets), &o);
    run_dfs::<Mix>(ctx, &Dfs::new("g-six", &us[6].keys[..4], 2, 2, 1, How::Sets), &o);
    bulk_shapes::<Mix>(ctx, &o);
    let bs = bases();
    ctx.family("g-pairs", 256 * 4 * TEMPLATES, |i, st| {
        let t = i % TEMPLATES;
        let d = (i / TEMPLATES) % 256;
        let b = bs[i / TEMPLATES / 256];
        run_scen::<Mix>(scen_of(&[b, flip(&b, d)], t, How::Sets, (i % 3) as u64, 4), &o, st)
    });
    mc("each commit is recomputed through every interface, in every order of its updates, and each history in every grouping into calls")
}

// ---------------------------------------------------------------- C12
pub struct C12;
pub fn collect_iter(it: JellyfishMerkleIterator<MemStore>) -> R<Vec<(K, V)>> {
    let mut out = vec![];
    let mut it = it;
    while let Some(x) = it.next() {
        let (k, v) = e2s("iteration", x)?;
        out.push((k.0, v));
        ck!(out.len() <= 100_000, "iteration does not end");
    }
    ck!(it.next().is_none(), "iteration continues after its end");
    Ok(out)
}
impl C12 {
    fn check<H: SimpleHasher>(w: &World<H>, v: Version, st: &mut Stats) -> R {
        let m = w.at(v);
        let all: Vec<(K, V)> = m.iter().map(|(k, v)| (*k, v.clone())).collect();
        let mut starts: Vec<K> = w.probes.to_vec();
        if m.len() <= 40 {
            for k in m.keys() {
                starts.extend(succ(k));
                starts.extend(pred(k));
            }
        }
        let big = all.len() > 60;
        for (n, s) in starts.iter().enumerate() {
            if big && n % 5 != 0 {
                continue;
            }
            let it = e2s("JellyfishMerkleIterator::new", JellyfishMerkleIterator::new(w.store.clone(), v, kh(s)))?;
            let got = collect_iter(it)?;
            let from = all.partition_point(|(k, _)| k < s);
            ck!(got[..] == all[from..], "iterating version {v} from {} yields {:?}, should be {:?}", kx(s), brief(&got), brief(&all[from..]));
            st.add("evaluations", 1);
        }
        let n = all.len();
        let mut idx: Vec<usize> = (0..n + 3).collect();
        idx.extend([n + 100, usize::MAX, 1 << 32, usize::MAX / 2]);
        for i in idx {
            if big && i % 7 != 0 && i + 3 < n {
                continue;
            }
            let it = e2s("new_by_index", JellyfishMerkleIterator::new_by_index(w.store.clone(), v, i))?;
            let got = collect_iter(it)?;
            ck!(got[..] == all[i.min(n)..], "iterating version {v} from index {i} yields {:?}, should be {:?}", brief(&got), brief(&all[i.min(n)..]));
            st.add("evaluations", 1);
        }
        Ok(())
    }
}
fn brief(v: &[(K, V)]) -> Vec<String> {
    v.iter().take(6).map(|(k, v)| format!("{}={}", kx(k), hex(&v[..v.len().min(4)]))).collect()
}
impl<H: SimpleHasher> Oracle<H> for C12 {
    fn commit(&self, w: &World<H>, d: &Done<H>, _c: &Commit, st: &mut Stats) -> R {
        for v in new_versions(d) {
            C12::check(w, v, st)?;
        }
        Ok(())
    }
    fn end(&self, w: &World<H>, st: &mut Stats) -> R {
        let n = w.maps.len() as u64;
        for v in w.versions() {
            if n > 12 && v % 9 != 0 {
                continue;
            }
            C12::check(w, v, st)?;
        }
        Ok(())
    }
}
pub fn c12(ctx: &Ctx) -> Info {
    common::<Mix>(ctx, &C12, Load::Heavy, How::Sets);
    let us = universes();
    run_dfs::<Sha256>(ctx, &Dfs::new("six", &us[6].keys, 1, 3, 0, How::Sets), &C12);
    bulk_shapes::<Mix>(ctx, &C12);
    // every subset of the children of a node, at several depths, every start nibble
    let bs = bases();
    let ms = masks(true);
    ctx.family("all-children-sets", ms.len(), |i, st| {
        let (p, b) = ([0usize, 1, 2, 63][i % 4], bs[[0, 1, 3][i % 3]]);
        let tw = [0u16, 0, 0x5555, 0x8000][(i / 4) % 4] & ms[i];
        let keys = fan(&b, p, ms[i], tw);
        let mut pr: Vec<K> = (0..16).map(|n| set_nib(&b, p, n)).collect();
        pr.push([0; 32]);
        pr.push([255; 32]);
        run_scen::<Mix>(Scen { first: 0, probes: pr, commits: vec![one(puts(&keys, va))] }, &IterOnly, st)
    });
    huge::<Mix>(ctx, &IterOnly);
    mc("iteration from every probe key and its neighbours and from every index, at every version of every explored history, and for all 65535 child sets of one node")
}
/// Starting keys only (cheap), for the full sweep over child sets.
struct IterOnly;
impl<H: SimpleHasher> Oracle<H> for IterOnly {
    fn commit(&self, w: &World<H>, d: &Done<H>, _c: &Commit, st: &mut Stats) -> R {
        let v = d.first;
        let all: Vec<(K, V)> = w.at(v).iter().map(|(k, v)| (*k, v.clone())).collect();
        for s in w.probes.iter() {
            let it = e2s("JellyfishMerkleIterator::new", JellyfishMerkleIterator::new(w.store.clone(), v, kh(s)))?;
            let from = all.partition_point(|(k, _)| k < s);
            ck!(collect_iter(it)?[..] == all[from..], "iterating from {} is wrong", kx(s));
        }
        let n = all.len();
        for i in [0, n / 2, n - 1, n] {
            let it = e2s("new_by_index", JellyfishMerkleIterator::new_by_index(w.store.clone(), v, i))?;
            ck!(collect_iter(it)?[..] == all[i..], "iterating from index {i} is wrong");
        }
        let mut idx: Vec<usize> = if n > 100 { (0..n).step_by(n / 61).collect() } else { vec![] };
        idx.extend((0..18).flat_map(|b| [1usize << b, (1 << b) - 1, (1 << b) + 1]).chain((1..9).map(|b| n.saturating_sub(b))));
        for i in idx.into_iter().filter(|i| *i < n) {
            let it = e2s("new_by_index", JellyfishMerkleIterator::new_by_index(w.store.clone(), v, i))?;
            for x in it.take(2).zip(&all[i..]) {
                let (k, val) = e2s("iteration", x.0)?;
                ck!(k.0 == x.1 .0 && val == x.1 .1, "iterating version {v} from index {i} yields {} where {} is due", kx(&k.0), kx(&x.1 .0));
            }
            st.add("evaluations", 1);
        }
        st.add("evaluations", 20);
        Ok(())
    }
}

// ---------------------------------------------------------------- C20
pub struct C20;
impl<H: SimpleHasher> Oracle<H> for C20 {
    fn commit(&self, w: &World<H>, d: &Done<H>, _c: &Commit, st: &mut Stats) -> R {
        let stats: Vec<&NodeStats> = d.batches.iter().flat_map(|b| b.node_stats.iter()).collect();
        ck!(stats.len() == d.roots.len(), "{} statistics for {} versions", stats.len(), d.roots.len());
        for (i, v) in new_versions(d).enumerate() {
            let n = e2s("get_leaf_count", w.tree().get_leaf_count(v))?;
            ck!(n == w.at(v).len(), "get_leaf_count({v}) = {n}, {} keys are live", w.at(v).len());
            let mut want = NodeStats::default();
            for b in &d.batches {
                for (k, node) in b.node_batch.nodes() {
                    if k.version() == v {
                        want.new_nodes += 1;
                        if matches!(node, Node::Leaf(_)) {
                            want.new_leaves += 1;
                        }
                    }
                }
                for s in &b.stale_node_index_batch {
                    if s.stale_since_version == v {
                        want.stale_nodes += 1;
                        match w.store.raw_node(&s.node_key) {
                            Some(Node::Leaf(_)) => want.stale_leaves += 1,
                            Some(_) => {}
                            None => return Err(format!("stale index names a node that is not stored: {s:?}")),
                        }
                    }
                }
            }
            ck!(*stats[i] == want, "statistics of version {v} are {:?}, the batch holds {want:?}", stats[i]);
            st.add("evaluations", 2);
        }
        Ok(())
    }
    fn end(&self, w: &World<H>, st: &mut Stats) -> R {
        for v in w.versions() {
            let n = e2s("get_leaf_count", w.tree().get_leaf_count(v))?;
            ck!(n == w.at(v).len(), "get_leaf_count({v}) = {n}, {} keys are live", w.at(v).len());
            st.add("evaluations", 1);
        }
        Ok(())
    }
}
pub fn c20(ctx: &Ctx) -> Info {
    common::<Mix>(ctx, &C20, Load::Light, How::Sets);
    let us = universes();
    run_dfs::<Sha256>(ctx, &Dfs::new("six", &us[6].keys, 1, 3, 0, How::OneProof), &C20);
    grouped::<Mix>(ctx, &C20);
    bulk_shapes::<Mix>(ctx, &C20);
    huge::<Mix>(ctx, &C20);
    mc("leaf counts and statistics recounted from the batch itself after every commit of every explored history")
}

// ---------------------------------------------------------------- C24
pub struct C24;
fn missing<H: SimpleHasher>(w: &World<H>, v: Version, st: &mut Stats) -> R {
    let t = w.tree();
    ck!(t.get_root_hash(v).is_err(), "get_root_hash answers for the missing version {v}");
    ck!(matches!(t.get_root_hash_option(v), Ok(None)), "get_root_hash_option({v}) is not none for a missing version");
    ck!(t.get_leaf_count(v).is_err(), "get_leaf_count answers for the missing version {v}");
    for k in w.probes.iter().take(6) {
        let named = |e: &anyhow::Error| {
            #[cfg(not(feature = "nostd"))]
            return e.chain().any(|c| c.downcast_ref::<MissingRootError>().is_some_and(|m| m.version == v));
            // without `std` it is no `Error`
            #[cfg(feature = "nostd")]
            return e.downcast_ref::<MissingRootError>().is_some_and(|m| m.version == v && m.to_string().contains(&v.to_string()));
        };
        match t.get_with_proof(kh(k), v) {
            Ok(x) => return Err(format!("get_with_proof({}, {v}) answers {:?} for a missing version", kx(k), x.0)),
            Err(e) => ck!(named(&e), "get_with_proof at missing version {v} fails with `{e:#}`, not naming the missing root"),
        }
        match t.get_with_exclusion_proof(kh(k), v) {
            Ok(_) => return Err(format!("get_with_exclusion_proof answers for missing version {v}")),
            Err(e) => ck!(named(&e), "get_with_exclusion_proof at missing version {v} fails with `{e:#}`, not naming the missing root"),
        }
        ck!(t.get_range_proof(kh(k), v).is_err(), "get_range_proof answers for the missing version {v}");
        if let Ok(mut it) = JellyfishMerkleIterator::new(w.store.clone(), v, kh(k)) {
            ck!(matches!(it.next(), Some(Err(_))), "iteration of the missing version {v} ends without an error");
        }
        st.add("evaluations", 4);
    }
    for i in 0..2 {
        if let Ok(mut it) = JellyfishMerkleIterator::new_by_index(w.store.clone(), v, i) {
            ck!(matches!(it.next(), Some(Err(_))), "iteration of the missing version {v} ends without an error");
        }
    }
    Ok(())
}
impl<H: SimpleHasher> Oracle<H> for C24 {
    fn commit(&self, w: &World<H>, _d: &Done<H>, _c: &Commit, st: &mut Stats) -> R {
        let mut vs = vec![w.next, w.next.saturating_add(1), w.next.saturating_add(5), u64::MAX - 1, u64::MAX];
        if w.first > 0 {
            vs.push(w.first - 1);
            vs.push(0);
        }
        for v in vs {
            if v >= w.next || v < w.first {
                missing(w, v, st)?;
            }
        }
        Ok(())
    }
    fn end(&self, w: &World<H>, st: &mut Stats) -> R {
        let n = w.maps.len() as u64;
        for cut in w.versions() {
            if n > 10 && cut % 11 != 3 {
                continue;
            }
            let f = w.fork();
            if f.store.prune(cut).is_err() {
                // the index itself is wrong: that is another property's business
                return Ok(());
            }
            for v in w.first..cut {
                if n > 10 && v + 3 < cut && v % 5 != 0 {
                    continue;
                }
                pruned(w, &f.store, v, 10, st)?;
            }
        }
        Ok(())
    }
}
/// A version whose nodes are partly or all gone: every answer is right or an error.
fn pruned<H: SimpleHasher>(w: &World<H>, store: &Arc<MemStore>, v: Version, nk: usize, st: &mut Stats) -> R {
    let t = JellyfishMerkleTree::<MemStore, H>::new(store);
    let m = w.at(v);
    let root = RootHash(*w.root_at(v));
    if let Ok(r) = t.get_root_hash(v) {
        ck!(r == root, "pruned version {v} reports a wrong root");
    }
    if let Ok(Some(r)) = t.get_root_hash_option(v) {
        ck!(r == root, "pruned version {v} reports a wrong root");
    }
    if let Ok(c) = t.get_leaf_count(v) {
        ck!(c == m.len(), "pruned version {v} reports a wrong leaf count");
    }
    for k in w.probes.iter().take(nk) {
        if let Ok(val) = t.get(kh(k), v) {
            ck!(val.as_ref() == m.get(k), "pruned version {v} answers {} wrongly", kx(k));
        }
        if let Ok((val, p)) = t.get_with_proof(kh(k), v) {
            ck!(val.as_ref() == m.get(k), "pruned version {v} answers {} wrongly", kx(k));
            ck!(p.verify(root, kh(k), val.as_ref()).is_ok(), "pruned version {v} gives a wrong proof of {}", kx(k));
        }
        if let Ok(r) = t.get_with_exclusion_proof(kh(k), v) {
            ck!(r.ok().map(|x| x.0).as_ref() == m.get(k), "pruned version {v} answers {} wrongly", kx(k));
        }
        if let Ok(p) = t.get_range_proof(kh(k), v) {
            ck!(m.contains_key(k), "pruned version {v} gives a range proof for an absent key");
            let l = leaves::<H>(m);
            let at = l.iter().find(|x| x.0 == *k).unwrap();
            ck!(p.verify(root, crate::forge::smleaf(k, &at.1), crate::forge::left_of::<H>(&l, k)).is_ok(), "pruned version {v} gives a wrong range proof for {}", kx(k));
        }
        let all: Vec<(K, V)> = m.range::<K, _>(k..).map(|(k, v)| (*k, v.clone())).collect();
        iter_partial(JellyfishMerkleIterator::new(store.clone(), v, kh(k)), &all, v)?;
        st.add("evaluations", 5);
    }
    let all: Vec<(K, V)> = m.iter().map(|(k, v)| (*k, v.clone())).collect();
    for i in 0..=all.len().min(3) {
        iter_partial(JellyfishMerkleIterator::new_by_index(store.clone(), v, i), &all[i..], v)?;
    }
    Ok(())
}
/// A pruning that stopped part way: any of the nodes due may be gone and any may be left.
struct TornPrune {
    /// all subsets of this many nodes; of more, prefixes, suffixes, singles and all but one
    full: usize,
    keys: usize,
}
impl<H: SimpleHasher> Oracle<H> for TornPrune {
    fn commit(&self, w: &World<H>, d: &Done<H>, _c: &Commit, st: &mut Stats) -> R {
        let due: Vec<StaleNodeIndex> = w.store.stale.borrow().iter().cloned().collect();
        let n = due.len();
        let mut sets: BTreeSet<Vec<usize>> = BTreeSet::new();
        if n <= self.full {
            sets.extend((1..1usize << n).map(|s| (0..n).filter(|i| s >> i & 1 == 1).collect()));
        } else {
            for i in 0..n {
                sets.insert(vec![i]);
                sets.insert((0..n).filter(|j| *j != i).collect());
                sets.insert((0..i + 1).collect());
                sets.insert((i..n).collect());
            }
        }
        let f = w.fork();
        let old: Vec<Version> = w.versions().filter(|v| *v < w.next - 1).collect();
        for s in sets {
            let gone: Vec<(NodeKey, Node)> = s
                .iter()
                .filter_map(|i| f.store.nodes.borrow_mut().remove(&due[*i].node_key).map(|x| (due[*i].node_key.clone(), x)))
                .collect();
            for v in &old {
                if old.len() > 4 && (*v + 3 < d.first && v % 5 != 0) {
                    continue;
                }
                pruned(w, &f.store, *v, self.keys, st)?;
            }
            st.add("schedules", 1);
            for (k, x) in gone {
                f.store.put_node(k, x);
            }
        }
        Ok(())
    }
}
/// An iteration may fail, but what it yields before must be right.
fn iter_partial(it: anyhow::Result<JellyfishMerkleIterator<MemStore>>, all: &[(K, V)], v: Version) -> R {
    let Ok(it) = it else { return Ok(()) };
    let mut n = 0;
    for x in it {
        let Ok((k, val)) = x else { return Ok(()) };
        ck!(n < all.len() && all[n].0 == k.0 && all[n].1 == val, "iteration of pruned version {v} yields a wrong pair");
        n += 1;
    }
    ck!(n == all.len(), "iteration of pruned version {v} ends early without an error");
    Ok(())
}
pub fn c24(ctx: &Ctx) -> Info {
    common::<Mix>(ctx, &C24, Load::Heavy, How::Sets);
    let us = universes();
    let th = ctx.thorough();
    let torn = TornPrune { full: if th { 10 } else { 7 }, keys: 6 };
    for u in [&us[0], &us[1], &us[2], &us[4]] {
        run_dfs::<Mix>(ctx, &Dfs::new(&format!("torn-prune-{}", u.name), &u.keys[..3], 1, if u.name == "deep" { 3 } else if th { 5 } else { 4 }, 0, How::Sets), &torn);
        run_dfs::<Mix>(ctx, &Dfs::new(&format!("torn-prune-{}", u.name), &u.keys[..if u.name == "deep" && !th { 2 } else { 3 }], 2, 2, 0, How::Sets), &torn);
    }
    let k = &us[5].keys;
    from_all_trees::<Mix>(ctx, "torn-prune-mixed5", k, &mixtures(k, true), false, How::Sets, &torn);
    let k = &us[6].keys[..5];
    from_all_trees::<Mix>(ctx, "torn-prune-six", k, &mixtures(k, true), false, How::Sets, &torn);
    mc("after every commit all unknown versions around and far from the history; after every history all pruning points, all pruned versions")
}

#[cfg(test)]
mod tests {
    use super::*;
    #[test]
    fn mix_is_segmentation_independent() {
        let d: Vec<u8> = (0..100u8).collect();
        let all = hval::<Mix>(&d);
        for i in 0..100 {
            for j in i..100 {
                let mut h = Mix::new();
                h.update(&d[..i]);
                h.update(&d[i..j]);
                h.update(&d[j..]);
                assert_eq!(h.finalize(), all);
            }
        }
        let (mut seen, mut inputs) = (BTreeSet::new(), BTreeSet::new());
        for i in 0..100 {
            for j in i..100 {
                for b in 0..8 {
                    let mut x = d[i..j].to_vec();
                    if let Some(l) = x.last_mut() {
                        *l ^= 1 << b;
                    }
                    seen.insert(hval::<Mix>(&x));
                    inputs.insert(x);
                }
            }
        }
        assert_eq!(seen.len(), inputs.len());
    }
}
