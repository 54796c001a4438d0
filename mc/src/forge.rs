//! Adversaries: every proof that can be assembled from the parts of a tree (and of others) within
//! stated bounds, presented for every false claim of a list. C04, C06, C07, C13.
use crate::basic::*;
use crate::shapes::*;
use crate::spec::*;
use crate::util::*;
use crate::world::*;
use crate::{ck, mc, Info};
use jmt::proof::{SparseMerkleLeafNode, SparseMerkleProof, SparseMerkleRangeProof, UpdateMerkleProof};
use jmt::storage::LeafNode;
use jmt::{RootHash, SimpleHasher};
use sha2::Sha256;
use std::collections::BTreeSet;
use std::rc::Rc;

/// A node of the binary tree (also an empty one).
#[derive(Clone, Debug)]
pub struct Pos {
    /// bits of the path, then zeros
    pub path: K,
    pub depth: usize,
    pub sib: Sib,
    /// siblings of it and its ancestors, from the bottom up
    pub chain: Vec<Sib>,
}
pub fn positions<H: SimpleHasher>(l: &[(K, K)]) -> Vec<Pos> {
    fn go<H: SimpleHasher>(l: &[(K, K)], path: K, depth: usize, chain: &mut Vec<Sib>, out: &mut Vec<Pos>) {
        let mut c = chain.clone();
        c.reverse();
        out.push(Pos { path, depth, sib: subtree_sib::<H>(l, depth), chain: c });
        if l.len() > 1 {
            let m = split(l, depth);
            let (a, b) = (subtree_sib::<H>(&l[..m], depth + 1), subtree_sib::<H>(&l[m..], depth + 1));
            chain.push(b);
            go::<H>(&l[..m], path, depth + 1, chain, out);
            chain.pop();
            chain.push(a);
            go::<H>(&l[m..], flip(&path, depth), depth + 1, chain, out);
            chain.pop();
        }
    }
    let mut out = vec![];
    go::<H>(l, [0; 32], 0, &mut vec![], &mut out);
    out
}

/// Siblings an attacker may use: all of the tree's nodes, of other trees' nodes, and nodes whose
/// fields are the children hashes or key and value hash of a node of the other kind.
pub fn pool<H: SimpleHasher>(trees: &[&Map], extra: &[(K, K)]) -> Vec<Sib> {
    let mut s: Vec<Sib> = vec![Sib::Null];
    for m in trees {
        for p in positions::<H>(&leaves::<H>(m)) {
            s.push(p.sib);
            match p.sib {
                Sib::Internal { l, r } => s.push(Sib::Leaf { k: l, v: r }),
                Sib::Leaf { k, v } => s.push(Sib::Internal { l: k, r: v }),
                Sib::Null => {}
            }
        }
    }
    for (k, v) in extra {
        s.push(Sib::Leaf { k: *k, v: *v });
    }
    s.push(Sib::Internal { l: PLACEHOLDER, r: PLACEHOLDER });
    let mut seen = BTreeSet::new();
    s.retain(|x| seen.insert(*x));
    s
}

/// At most `max` of them, evenly over the (deterministic) list.
pub fn thin<T>(v: Vec<T>, max: usize) -> Vec<T> {
    if v.len() <= max {
        return v;
    }
    let step = v.len().div_ceil(max);
    v.into_iter().step_by(step).collect()
}

/// All single edits of a sibling chain; in long chains only around the positions that matter.
pub fn edits(chain: &[Sib], pool: &[Sib]) -> Vec<Vec<Sib>> {
    let n = chain.len();
    let mut out: Vec<Vec<Sib>> = vec![chain.to_vec()];
    let mut at: BTreeSet<usize> = BTreeSet::new();
    if n <= 12 {
        at.extend(0..=n);
    } else {
        at.extend([0, 1, n / 2, n - 1, n]);
        for (i, s) in chain.iter().enumerate() {
            if *s != Sib::Null {
                at.extend([i.saturating_sub(1), i, i + 1]);
            }
        }
    }
    for &i in &at {
        if i < n {
            let mut c = chain.to_vec();
            c.remove(i);
            out.push(c);
            let mut c = chain.to_vec();
            c.insert(i, chain[i]);
            out.push(c);
            for p in pool {
                if *p != chain[i] {
                    let mut c = chain.to_vec();
                    c[i] = *p;
                    out.push(c);
                }
            }
            for &j in &at {
                if j > i && j < n && chain[i] != chain[j] {
                    let mut c = chain.to_vec();
                    c.swap(i, j);
                    out.push(c);
                }
            }
        }
        if i > 1 {
            out.push(chain[i..].to_vec());
        }
        if i + 1 < n {
            out.push(chain[..i].to_vec());
        }
        for p in pool {
            let mut c = chain.to_vec();
            c.insert(i, *p);
            out.push(c);
        }
    }
    let mut seen = BTreeSet::new();
    out.retain(|x| seen.insert(x.clone()));
    out
}
/// Every sequence of at most `n` siblings of the pool.
pub fn sequences(pool: &[Sib], n: usize) -> Vec<Vec<Sib>> {
    let mut out: Vec<Vec<Sib>> = vec![vec![]];
    let mut layer: Vec<Vec<Sib>> = vec![vec![]];
    for _ in 0..n {
        let mut nl = vec![];
        for l in &layer {
            for p in pool {
                let mut c = l.clone();
                c.push(*p);
                nl.push(c);
            }
        }
        out.extend(nl.iter().cloned());
        layer = nl;
    }
    out
}

pub fn forge<H: SimpleHasher>(leaf: Option<(K, K)>, sibs: &[Sib]) -> R<SparseMerkleProof<H>> {
    dec(&enc(&PProof { leaf, sibs: sibs.to_vec() })?)
}

/// Keys worth lying about.
fn targets(m: &Map, limit: usize) -> Vec<K> {
    let keys: Vec<K> = m.keys().copied().collect();
    let mut t = probes(&keys, keys.len() + limit);
    t.truncate(keys.len() + limit);
    t
}
fn encoded(m: &Map) -> Vec<V> {
    // values that are encodings of nodes of the tree
    let mut out = vec![];
    for p in positions::<Sha256>(&leaves::<Sha256>(m)).iter().take(3) {
        match p.sib {
            Sib::Internal { l, r } => out.push([b"JMT::IntrnalNode".as_slice(), &l, &r].concat()),
            Sib::Leaf { k, v } => out.push([b"JMT::LeafNode".as_slice(), &k, &v].concat()),
            Sib::Null => {}
        }
    }
    out.truncate(1);
    out
}
/// False claims about a tree.
fn lies(m: &Map, limit: usize) -> Vec<(K, Option<V>)> {
    let mut out = vec![];
    let some: Vec<V> = m.values().take(2).cloned().collect();
    for k in targets(m, limit) {
        let mut vals: Vec<V> = some.clone();
        vals.push(vb(1));
        vals.push(vec![]);
        if out.is_empty() {
            vals.extend(encoded(m));
        }
        for v in vals {
            if m.get(&k) != Some(&v) && !out.contains(&(k, Some(v.clone()))) {
                out.push((k, Some(v)));
            }
        }
        if m.contains_key(&k) {
            out.push((k, None));
        }
    }
    out
}
/// Leaves worth presenting for a claim.
fn leaf_options<H: SimpleHasher>(m: &Map, k: &K, v: Option<&V>, pool: &[Sib]) -> Vec<Option<(K, K)>> {
    let mut out: Vec<Option<(K, K)>> = vec![None];
    if let Some(v) = v {
        out.push(Some((*k, hval::<H>(v))));
        for (o, _) in m.iter().take(2) {
            out.push(Some((*o, hval::<H>(v))));
        }
    }
    for s in pool {
        if let Sib::Leaf { k, v } = s {
            out.push(Some((*k, *v)));
        }
    }
    if let Some(Sib::Leaf { v, .. }) = pool.iter().find(|s| matches!(s, Sib::Leaf { .. })) {
        out.push(Some((*k, *v)));
    }
    if let Some(x) = m.get(k) {
        out.push(Some((*k, hval::<H>(x))));
    }
    let mut seen = BTreeSet::new();
    out.retain(|x| seen.insert(*x));
    out
}

fn show(leaf: &Option<(K, K)>, sibs: &[Sib]) -> String {
    let s = |s: &Sib| match s {
        Sib::Null => "null".to_string(),
        Sib::Internal { l, r } => format!("internal({},{})", &hex(l)[..8], &hex(r)[..8]),
        Sib::Leaf { k, v } => format!("leaf({},{})", kx(k), &hex(v)[..8]),
    };
    let mut txt: Vec<String> = sibs.iter().take(12).map(s).collect();
    if sibs.len() > 12 {
        txt.push(format!(".. {} in all", sibs.len()));
    }
    format!("leaf {:?}, siblings [{}]", leaf.map(|(k, v)| (kx(&k), hex(&v[..4]))), txt.join(", "))
}

/// Presents one forged proof for one false claim through every entry point.
fn lie<H: SimpleHasher>(m: &Map, root: &K, k: &K, v: Option<&V>, p: &SparseMerkleProof<H>, leaf: &Option<(K, K)>, sibs: &[Sib], st: &mut Stats) -> R {
    st.add("evaluations", 1);
    let r = RootHash(*root);
    let mut ok = p.verify(r, kh(k), v).is_ok();
    match v {
        Some(v) => ok |= p.verify_existence(r, kh(k), v).is_ok(),
        None => ok |= p.verify_nonexistence(r, kh(k)).is_ok(),
    }
    ck!(
        !ok,
        "a proof is accepted for the false claim {} = {:?} (truth: {:?}): {}",
        kx(k),
        v,
        m.get(k),
        show(leaf, sibs)
    );
    Ok(())
}

fn other_tree(m: &Map) -> Map {
    // the tree with one key more, one value changed
    let mut o = m.clone();
    if let Some(k) = m.keys().next().copied() {
        o.insert(k, vb(3));
        o.insert(flip(&k, 250), va(9));
    } else {
        o.insert([0x11; 32], va(9));
    }
    o
}

/// Checks that the spec used by the adversary is the implementation's (else attacks are vacuous).
fn anchored<H: SimpleHasher>(m: &Map, st: &mut Stats) -> R<World<H>> {
    let w = build::<H>(m, 0)?;
    st.add("traces", 1);
    st.add("transitions", 1);
    st.state(fp(m));
    Ok(w)
}

fn tree_list(ctx: &Ctx) -> Vec<Map> {
    let t = small_trees();
    if ctx.thorough() {
        t
    } else {
        t.into_iter().enumerate().filter(|(i, m)| m.len() <= 3 || i % 4 == 0).map(|(_, m)| m).collect()
    }
}

pub fn c04(ctx: &Ctx) -> Info {
    let th = ctx.thorough();
    let trees = tree_list(ctx);
    // every proof of up to 2 (3) siblings
    let todo: Vec<(usize, usize)> = trees
        .iter()
        .enumerate()
        .flat_map(|(i, m)| (0..lies(m, if th { 6 } else { 3 }).len()).map(move |j| (i, j)))
        .collect();
    ctx.family("assembled", todo.len(), |i, st| {
        let (i, j) = todo[i];
        let m = &trees[i];
        anchored::<Sha256>(m, st)?;
        let root = spec_root::<Sha256>(m);
        let o = other_tree(m);
        let extra = [(flip(&[0x77; 32], i % 256), hval::<Sha256>(&vb(1)))];
        let po = thin(pool::<Sha256>(&[m, &o], &extra), if th { 44 } else { 26 });
        let seqs = sequences(&po, if th && po.len() <= 22 { 3 } else { 2 });
        let ls = lies(m, if th { 6 } else { 3 });
        for (k, v) in &ls[j..=j] {
            for leaf in leaf_options::<Sha256>(m, k, v.as_ref(), &po) {
                for s in &seqs {
                    let p = forge::<Sha256>(leaf, s)?;
                    lie(m, &root, k, v.as_ref(), &p, &leaf, s, st)?;
                }
            }
        }
        Ok(())
    });
    // every single edit of the sibling chain of every node
    ctx.family("edited", trees.len(), |i, st| surgery::<Sha256>(&trees[i], if th { 8 } else { 3 }, if th { 24 } else { 8 }, th, st));
    let bs = bases();
    ctx.family("edited-pairs", 256 * if th { 4 } else { 1 }, |i, st| {
        let b = bs[3 - i / 256];
        let m: Map = [(b, va(0)), (flip(&b, i % 256), va(1))].into();
        surgery::<Mix>(&m, if th { 3 } else { 1 }, if th { 6 } else { 3 }, false, st)
    });
    let ds = if th { depths(false) } else { vec![0, 1, 3, 4, 5, 15, 64, 200, 255] };
    let n = ds.len();
    ctx.family("edited-triples", n * n * 2, |i, st| {
        let (a, b, t) = (ds[i / 2 % n], ds[i / 2 / n], i % 2);
        if a == b {
            return Ok(());
        }
        let x = bs[3];
        let z = if t == 0 { flip(&x, b) } else { flip(&flip(&x, a), b) };
        let m: Map = [(x, va(0)), (flip(&x, a), va(1)), (z, va(2))].into();
        surgery::<Mix>(&m, if th { 3 } else { 1 }, if th { 8 } else { 3 }, false, st)
    });
    // the shapes of wide nodes
    let ms = masks(false);
    ctx.family("edited-fans", ms.len() / if th { 1 } else { 6 }, |i, st| {
        let mask = ms[i * if th { 1 } else { 6 } + i % 5];
        let keys = fan(&bs[3], i % 2, mask, [0, 0x1111, 0xffff][i % 3] & mask);
        let m: Map = keys.iter().enumerate().map(|(j, k)| (*k, va(j))).collect();
        surgery::<Mix>(&m, if th { 2 } else { 1 }, if th { 6 } else { 3 }, false, st)
    });
    // honest proofs of one tree against another version's root: transplants
    let us = universes();
    run_dfs::<Mix>(ctx, &Dfs::new("transplant", &us[4].keys, 1, if th { 4 } else { 3 }, 0, How::Sets), &Transplant);
    run_dfs::<Mix>(ctx, &Dfs::new("transplant", &us[1].keys, 2, 2, 0, How::Sets), &Transplant);
    mc("states are trees; for each, every proof assembled from at most 2 (thorough 3) siblings of the pool (all nodes of the tree and of another tree, retyped nodes, invented leaves) with every leaf option, and every single edit of the sibling chain of every binary node, is presented for every false claim of the list")
}

/// Edited chains of the tree's positions.
fn surgery<H: SimpleHasher>(m: &Map, nlies: usize, max_pool: usize, pairs: bool, st: &mut Stats) -> R {
    let w = anchored::<H>(m, st)?;
    let root = spec_root::<H>(m);
    ck!(w.roots[0] == root, "the tree's root is not that of its contents");
    let l = leaves::<H>(m);
    let o = other_tree(m);
    let mut po = pool::<H>(&[m, &o], &[]);
    if po.len() > max_pool {
        // keep the kinds mixed
        po = thin(po, max_pool);
        po.push(subtree_sib::<H>(&l, 0));
        if let Some((k, v)) = l.last() {
            po.push(Sib::Leaf { k: *k, v: *v });
        }
    }
    let mut pos = positions::<H>(&l);
    if pos.len() > 40 {
        // leaves, and empty and internal nodes next to something
        pos = pos.into_iter().enumerate().filter(|(i, p)| matches!(p.sib, Sib::Leaf { .. }) || p.chain.first().is_some_and(|c| *c != Sib::Null) || i % 64 == 0).map(|x| x.1).collect();
        let step = pos.len() / 24 + 1;
        pos = pos.into_iter().step_by(step).collect();
    }
    let ls = lies(m, nlies);
    let mut done: std::collections::HashSet<u64, FxBuild> = Default::default();
    for p in &pos {
        let mut es = edits(&p.chain, &po);
        if pairs && p.chain.len() <= 4 && m.len() <= 3 {
            let small: Vec<Sib> = po.iter().take(8).copied().collect();
            let mut more = vec![];
            for e in &es {
                if e.len() <= 5 {
                    more.extend(edits(e, &small));
                }
            }
            es.extend(more);
            es.sort();
            es.dedup();
        }
        let own = match p.sib {
            Sib::Leaf { k, v } => Some((k, v)),
            Sib::Internal { l, r } => Some((l, r)),
            Sib::Null => None,
        };
        for s in &es {
            for leaf in [None, own] {
                if !done.insert(fp(&(leaf, s))) {
                    continue;
                }
                let proof = forge::<H>(leaf, s)?;
                for (k, v) in &ls {
                    lie(m, &root, k, v.as_ref(), &proof, &leaf, s, st)?;
                }
            }
            // leaves made up for the claim
            if !done.insert(fp(&(1u8, s))) {
                continue;
            }
            for (k, v) in &ls {
                let alt = match v {
                    Some(v) => (*k, hval::<H>(v)),
                    None => (flip(k, 255), [7; 32]),
                };
                let leaf = Some(alt);
                let proof = forge::<H>(leaf, s)?;
                lie(m, &root, k, v.as_ref(), &proof, &leaf, s, st)?;
            }
        }
        // the unedited chain proves what is true
        if let Sib::Leaf { k, v } = p.sib {
            let proof = forge::<H>(Some((k, v)), &p.chain)?;
            ck!(proof.verify(RootHash(root), kh(&k), m.get(&k)).is_ok(), "the true proof of {} is rejected", kx(&k));
            st.add("accepted true proofs", 1);
        } else if let Sib::Null = p.sib {
            let proof = forge::<H>(None, &p.chain)?;
            ck!(proof.verify_nonexistence(RootHash(root), kh(&p.path)).is_ok(), "the true proof of absence of {} is rejected", kx(&p.path));
            st.add("accepted true proofs", 1);
        }
    }
    Ok(())
}

/// Every honest proof of every version for every key, presented at every version for every claim.
struct Transplant;
impl<H: SimpleHasher> Oracle<H> for Transplant {
    fn commit(&self, _w: &World<H>, _d: &Done<H>, _c: &Commit, _st: &mut Stats) -> R {
        Ok(())
    }
    fn end(&self, w: &World<H>, st: &mut Stats) -> R {
        let few: Vec<K> = w.probes.iter().take(7).copied().collect();
        for v in w.versions() {
            for k in &few {
                let (_, p) = e2s("get_with_proof", w.tree().get_with_proof(kh(k), v))?;
                for v2 in w.versions() {
                    let m = w.at(v2);
                    let root = RootHash(*w.root_at(v2));
                    for k2 in &few {
                        let mut vals: Vec<Option<V>> = vec![None];
                        for i in 0..w.probes.len().min(4) {
                            vals.push(Some(va(i)));
                        }
                        for val in vals {
                            st.add("evaluations", 1);
                            if p.verify(root, kh(k2), val.as_ref()).is_ok() {
                                ck!(m.get(k2) == val.as_ref(), "the proof of {} at version {v} is accepted at version {v2} for the false claim {} = {val:?}", kx(k), kx(k2));
                            }
                        }
                    }
                }
            }
        }
        Ok(())
    }
}

// ---------------------------------------------------------------- C06
/// 32-byte hex strings in an error message: what a forger learns from being rejected.
fn leaked(e: &anyhow::Error) -> Vec<K> {
    let s = format!("{e:#}");
    let b = s.as_bytes();
    let mut out = vec![];
    let mut i = 0;
    while i < b.len() {
        let mut j = i;
        while j < b.len() && b[j].is_ascii_hexdigit() {
            j += 1;
        }
        if j - i == 64 {
            let mut k = [0u8; 32];
            for (n, x) in k.iter_mut().enumerate() {
                *x = u8::from_str_radix(&s[i + 2 * n..i + 2 * n + 2], 16).unwrap();
            }
            out.push(k);
        }
        i = j.max(i + 1);
    }
    out
}
/// New roots a dishonest prover would like to see accepted for the update with this proof.
fn wishes<H: SimpleHasher>(old: &K, k: &K, v: Option<&V>, leaf: &Option<(K, K)>, sibs: &[Sib], out: &mut Vec<K>) {
    out.push(*old);
    let hs: Vec<K> = sibs.iter().map(|s| s.hash::<H>()).collect();
    if hs.len() > 256 {
        return;
    }
    let start = match v {
        Some(v) => hleaf::<H>(k, &hval::<H>(v)),
        None => PLACEHOLDER,
    };
    out.push(fold::<H>(start, k, &hs));
    if let Some((lk, lv)) = leaf {
        out.push(fold::<H>(start, lk, &hs));
        out.push(fold::<H>(hleaf::<H>(lk, lv), k, &hs));
        if v.is_some() && lk != k {
            // split with the right and with wrong numbers of empty siblings between
            let c = common_bits(lk, k);
            for extra in [c.saturating_sub(hs.len()), 0, 1, 3, 4] {
                if extra + 1 + hs.len() <= 256 {
                    let mut s = vec![hleaf::<H>(lk, lv)];
                    s.resize(1 + extra, PLACEHOLDER);
                    s.extend(&hs);
                    out.push(fold::<H>(start, k, &s));
                }
            }
        }
    }
    // coalescing too much or too little
    let mut i = 0;
    while i < sibs.len() && sibs[i] == Sib::Null {
        i += 1;
    }
    if v.is_none() && i < sibs.len() {
        out.push(fold::<H>(sibs[i].hash::<H>(), k, &hs[i + 1..]));
        out.push(fold::<H>(PLACEHOLDER, k, &hs[i..]));
        let mut j = i + 1;
        while j < sibs.len() && sibs[j] == Sib::Null {
            j += 1;
        }
        out.push(fold::<H>(sibs[i].hash::<H>(), k, &hs[j..]));
    }
}
#[allow(clippy::too_many_arguments)]
fn attack_update<H: SimpleHasher>(
    before: &Map,
    old: &K,
    ups: &Ups,
    truth: &K,
    steps: &[(Option<(K, K)>, Vec<Sib>)],
    fixed: &[K],
    st: &mut Stats,
) -> R {
    let pps: Vec<PProof> = steps.iter().map(|(l, s)| PProof { leaf: *l, sibs: s.clone() }).collect();
    let bytes = enc(&pps)?;
    let go = |new: &K| -> R<anyhow::Result<()>> {
        let p: UpdateMerkleProof<H> = dec(&bytes)?;
        Ok(p.verify_update(RootHash(*old), RootHash(*new), kups(ups)))
    };
    let bad = |new: &K| {
        format!(
            "an update proof is accepted for {:?} with a wrong new root {} (before: {} keys, right: {}): {}",
            one(ups.clone()),
            hex(&new[..6]),
            before.len(),
            hex(&truth[..6]),
            steps.iter().map(|(l, s)| show(l, s)).collect::<Vec<_>>().join(" then ")
        )
    };
    st.add("evaluations", 1);
    // a root that cannot be right (the old one, as if nothing happened): the rejection names the
    // one it computed, if it got that far
    let wrong = if old != truth { *old } else { [0x5c; 32] };
    match go(&wrong)? {
        Ok(()) => return Err(bad(&wrong)),
        Err(e) => {
            for k in leaked(&e) {
                if k != *truth && k != wrong {
                    if go(&k)?.is_ok() {
                        return Err(bad(&k));
                    }
                } else if k == *truth {
                    st.add("accepted true transitions", 1);
                }
            }
        }
    }
    for k in fixed {
        if k != truth && go(k)?.is_ok() {
            return Err(bad(k));
        }
    }
    Ok(())
}

fn update_lies(m: &Map, limit: usize) -> Vec<(K, Option<V>)> {
    let mut out = vec![];
    for (i, k) in targets(m, limit).into_iter().enumerate() {
        out.push((k, Some(vb(1))));
        if i % 2 == 0 {
            out.push((k, Some(va(0))));
        }
        out.push((k, None));
    }
    out
}

fn update_surgery<H: SimpleHasher>(m: &Map, ntargets: usize, brute: usize, max_pool: usize, max_pos: usize, st: &mut Stats) -> R {
    let w = anchored::<H>(m, st)?;
    let old = spec_root::<H>(m);
    ck!(w.roots[0] == old, "the tree's root is not that of its contents");
    let l = leaves::<H>(m);
    let o = other_tree(m);
    let mut po = pool::<H>(&[m, &o], &[]);
    po = thin(po, max_pool);
    let mut chains: Vec<(Vec<Sib>, Option<(K, K)>)> = vec![];
    let pos = positions::<H>(&l);
    let step = pos.len() / max_pos + 1;
    for (i, p) in pos.iter().enumerate() {
        if i % step != 0 && !matches!(p.sib, Sib::Leaf { .. }) {
            continue;
        }
        let own = match p.sib {
            Sib::Leaf { k, v } => Some((k, v)),
            Sib::Internal { l, r } => Some((l, r)),
            Sib::Null => None,
        };
        for e in edits(&p.chain, &po) {
            chains.push((e, own));
        }
    }
    for s in sequences(&po, brute) {
        chains.push((s, None));
    }
    chains.sort();
    chains.dedup();
    for (k, v) in update_lies(m, ntargets) {
        let after = apply_updates(m, &[(k, v.clone())]);
        let truth = spec_root::<H>(&after);
        let ups: Ups = vec![(k, v.clone())];
        for (s, own) in &chains {
            let mut ls: Vec<Option<(K, K)>> = vec![None, *own];
            if let Some(v) = &v {
                ls.push(Some((k, hval::<H>(v))));
            }
            if let Some(x) = m.get(&k) {
                ls.push(Some((k, hval::<H>(x))));
            }
            ls.push(Some((flip(&k, 255), [7; 32])));
            ls.push(Some((k, [9; 32])));
            let mut seen = BTreeSet::new();
            ls.retain(|x| seen.insert(*x));
            for leaf in ls {
                attack_update::<H>(m, &old, &ups, &truth, &[(leaf, s.clone())], &[], st)?;
            }
        }
        // honest proof with all the roots a prover could wish for
        let p = spec_proof::<H>(&l, &k);
        let mut fixed = vec![];
        wishes::<H>(&old, &k, v.as_ref(), &p.leaf, &p.sibs, &mut fixed);
        for (k2, v2) in update_lies(m, ntargets) {
            fixed.push(spec_root::<H>(&apply_updates(m, &[(k2, v2.clone())])));
            fixed.push(spec_root::<H>(&apply_updates(&after, &[(k2, v2)])));
        }
        attack_update::<H>(m, &old, &ups, &truth, &[(p.leaf, p.sibs)], &fixed, st)?;
    }
    Ok(())
}

pub fn c06(ctx: &Ctx) -> Info {
    let th = ctx.thorough();
    let trees = tree_list(ctx);
    ctx.family("single-updates", trees.len(), |i, st| {
        let m = &trees[i];
        update_surgery::<Sha256>(m, if th { 8 } else { 4 }, if m.len() <= 2 { 2 } else { 1 + th as usize }, if th { 40 } else { 9 }, if th { 60 } else { 16 }, st)
    });
    let bs = bases();
    ctx.family("single-updates-pairs", 256 * if th { 4 } else { 1 }, |i, st| {
        let b = bs[3 - i / 256];
        let m: Map = [(b, va(0)), (flip(&b, i % 256), va(1))].into();
        update_surgery::<Mix>(&m, if th { 6 } else { 2 }, 0, if th { 6 } else { 3 }, if th { 20 } else { 4 }, st)
    });
    let ds = if th { depths(false) } else { vec![0, 1, 2, 3, 4, 7, 9, 30, 64, 127, 200, 253, 255] };
    let n = ds.len();
    ctx.family("single-updates-triples", n * n * 2, |i, st| {
        let (a, b, t) = (ds[i / 2 % n], ds[i / 2 / n], i % 2);
        if a == b {
            return Ok(());
        }
        let x = bs[2];
        let z = if t == 0 { flip(&x, b) } else { flip(&flip(&x, a), b) };
        let m: Map = [(x, va(0)), (flip(&x, a), va(1)), (z, va(2))].into();
        update_surgery::<Mix>(&m, if th { 4 } else { 2 }, 0, if th { 5 } else { 3 }, if th { 20 } else { 4 }, st)
    });
    // lists of two updates; each step's proof is any honest or outdated or misdirected one
    ctx.family("two-updates", trees.len(), |i, st| {
        let m = &trees[i];
        if m.len() > 4 {
            return Ok(());
        }
        anchored::<Sha256>(m, st)?;
        two_updates::<Sha256>(m, if th { 5 } else { 2 }, th, st)
    });
    // no updates at all
    ctx.family("no-updates", trees.len(), |i, st| {
        let m = &trees[i];
        anchored::<Sha256>(m, st)?;
        let old = spec_root::<Sha256>(m);
        let mut fixed: Vec<K> = trees.iter().map(spec_root::<Sha256>).collect();
        fixed.extend([[0; 32], [0x5c; 32], PLACEHOLDER]);
        fixed.extend((0..256).map(|b| flip(&old, b)));
        let l = leaves::<Sha256>(m);
        for k in targets(m, if th { 20 } else { 8 }) {
            let p = spec_proof::<Sha256>(&l, &k);
            let a = (p.leaf, p.sibs.clone());
            for steps in [vec![], vec![a.clone()], vec![a.clone(), a], vec![(None, vec![])], vec![(None, p.sibs)]] {
                attack_update::<Sha256>(m, &old, &vec![], &old, &steps, &fixed, st)?;
            }
        }
        Ok(())
    });
    // lists of three updates; each step's proof taken at any of the four states
    ctx.family("three-updates", trees.len(), |i, st| {
        let m = &trees[i];
        if m.len() > if th { 4 } else { 2 } {
            return Ok(());
        }
        anchored::<Mix>(m, st)?;
        three_updates::<Mix>(m, if th { 4 } else { 2 }, st)
    });
    mc("states are trees; for each update of the list every proof obtained by a single edit of the sibling chain of any binary node (or assembled from the pool), with every leaf option, is presented; the new roots tried are those a prover could want plus the one the verifier itself computed")
}

fn three_updates<H: SimpleHasher>(m: &Map, ntargets: usize, st: &mut Stats) -> R {
    let old = spec_root::<H>(m);
    let us = update_lies(m, ntargets);
    for a in &us {
        for b in &us {
            for c in &us {
                let ups: Ups = vec![a.clone(), b.clone(), c.clone()];
                let mut ms = vec![m.clone()];
                for u in &ups {
                    ms.push(apply_updates(ms.last().unwrap(), &[u.clone()]));
                }
                let truth = spec_root::<H>(&ms[3]);
                // the roots with some of the updates left out
                let mut fixed: Vec<K> = (0..7usize)
                    .map(|s| spec_root::<H>(&apply_updates(m, &(0..3).filter(|j| s >> j & 1 == 1).map(|j| ups[j].clone()).collect::<Vec<_>>())))
                    .collect();
                fixed.sort();
                fixed.dedup();
                let ls: Vec<Leaves> = ms.iter().map(leaves::<H>).collect();
                let at: Vec<Vec<(Option<(K, K)>, Vec<Sib>)>> = ups
                    .iter()
                    .map(|(k, _)| {
                        let mut v: Vec<_> = ls
                            .iter()
                            .map(|l| {
                                let p = spec_proof::<H>(l, k);
                                (p.leaf, p.sibs)
                            })
                            .collect();
                        v.sort();
                        v.dedup();
                        v
                    })
                    .collect();
                for p in &at[0] {
                    for q in &at[1] {
                        for r in &at[2] {
                            attack_update::<H>(m, &old, &ups, &truth, &[p.clone(), q.clone(), r.clone()], &fixed, st)?;
                        }
                    }
                }
            }
        }
    }
    Ok(())
}

fn two_updates<H: SimpleHasher>(m: &Map, ntargets: usize, th: bool, st: &mut Stats) -> R {
    let old = spec_root::<H>(m);
    let l0 = leaves::<H>(m);
    let ts = targets(m, ntargets);
    let us = update_lies(m, ntargets);
    for u1 in &us {
        let m1 = apply_updates(m, &[u1.clone()]);
        let l1 = leaves::<H>(&m1);
        let r1 = spec_root::<H>(&m1);
        for u2 in &us {
            let ups: Ups = vec![u1.clone(), u2.clone()];
            let m2 = apply_updates(&m1, &[u2.clone()]);
            let truth = spec_root::<H>(&m2);
            let skip1 = spec_root::<H>(&apply_updates(m, &[u2.clone()]));
            let fixed = vec![old, r1, skip1];
            let cand = |l: &[(K, K)], extra: &[(K, K)]| -> Vec<(Option<(K, K)>, Vec<Sib>)> {
                let mut c: Vec<(Option<(K, K)>, Vec<Sib>)> = vec![(None, vec![])];
                for k in &ts {
                    for ll in [l, extra] {
                        let p = spec_proof::<H>(ll, k);
                        c.push((p.leaf, p.sibs.clone()));
                        if th {
                            c.push((None, p.sibs.clone()));
                            if !p.sibs.is_empty() {
                                c.push((p.leaf, p.sibs[1..].to_vec()));
                            }
                        }
                    }
                }
                c.sort();
                c.dedup();
                c
            };
            let l2 = leaves::<H>(&m2);
            let c1 = cand(&l0, &l1);
            let c2 = cand(&l1, &l2);
            for p1 in &c1 {
                for p2 in &c2 {
                    attack_update::<H>(m, &old, &ups, &truth, &[p1.clone(), p2.clone()], &fixed, st)?;
                }
            }
            // too few and too many proofs
            let h1 = spec_proof::<H>(&l0, &u1.0);
            let h2 = spec_proof::<H>(&l1, &u2.0);
            let a = (h1.leaf, h1.sibs);
            let b = (h2.leaf, h2.sibs);
            let counts: [Vec<(Option<(K, K)>, Vec<Sib>)>; 5] = [vec![], vec![a.clone()], vec![b.clone()], vec![a.clone(), b.clone(), b.clone()], vec![a.clone(), a.clone(), b.clone()]];
            for c in &counts {
                attack_update::<H>(m, &old, &ups, &truth, c, &fixed, st)?;
            }
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- C07
pub fn c07(ctx: &Ctx) -> Info {
    let th = ctx.thorough();
    let mut lens: Vec<usize> = (0..=300).collect();
    lens.extend([511, 512, 513, 1000, 4096, 65537]);
    let bs = bases();
    let kind = |kd: usize, i: usize| -> Sib {
        let x = [i as u8; 32];
        match kd {
            0 => Sib::Null,
            1 => Sib::Internal { l: x, r: [1; 32] },
            2 => Sib::Leaf { k: x, v: [2; 32] },
            3 => [Sib::Null, Sib::Leaf { k: x, v: x }, Sib::Null, Sib::Null, Sib::Internal { l: x, r: x }][i % 5],
            4 => {
                if i == 0 {
                    Sib::Internal { l: x, r: x }
                } else {
                    Sib::Null
                }
            }
            _ => {
                if i < 3 {
                    Sib::Null
                } else {
                    Sib::Leaf { k: x, v: x }
                }
            }
        }
    };
    // (length, kind) x leaf sharing any number of bits with the key
    ctx.family("proofs", lens.len() * 6, |i, st| {
        let (n, kd) = (lens[i / 6], i % 6);
        let key = bs[[3, 0, 1][i % 3]];
        let sibs: Vec<Sib> = (0..n).map(|j| kind(kd, j)).collect();
        let hs: Vec<K> = sibs.iter().map(|s| s.hash::<Sha256>()).collect();
        let mut ls: Vec<Option<(K, K)>> = vec![None, Some((key, hval::<Sha256>(&va(0)))), Some((key, [3; 32]))];
        for c in 0..256 {
            if th || kd == 0 || c % 4 == i % 4 || c + 6 > 250 || c.abs_diff(n) < 6 {
                ls.push(Some((flip(&key, c), [4; 32])));
                if th && c < 255 {
                    ls.push(Some((flip(&flip(&key, c), c + 1), [4; 32])));
                }
            }
        }
        for leaf in ls {
            let p = forge::<Sha256>(leaf, &sibs)?;
            detail(|| format!("leaf {:?}, {n} siblings of kind {kd}, key {}", leaf.map(|l| kx(&l.0)), kx(&key)));
            // roots that let the proof pass as far as possible
            let mut roots = vec![[0u8; 32], PLACEHOLDER];
            if n <= 256 {
                let start = leaf.map_or(PLACEHOLDER, |(k, v)| hleaf::<Sha256>(&k, &v));
                let viable = leaf.is_none_or(|l| common_bits(&l.0, &key) >= n || common_bits(&l.0, &key) + 2 > n);
                if viable {
                    roots.push(fold::<Sha256>(start, &key, &hs));
                    if let Some((k, _)) = leaf {
                        roots.push(fold::<Sha256>(start, &k, &hs));
                    }
                }
            }
            roots.dedup();
            for r in roots {
                let r = RootHash(r);
                let _ = p.verify(r, kh(&key), Some(va(0)));
                let _ = p.verify(r, kh(&key), None::<&[u8]>);
                let _ = p.verify_existence(r, kh(&key), b"");
                let _ = p.verify_nonexistence(r, kh(&key));
                for v in [Some(va(0)), Some(vec![]), None] {
                    let up = UpdateMerkleProof::new(vec![p.clone()]);
                    let _ = up.verify_update(r, r, vec![(kh(&key), v.clone())]);
                    if n <= 256 {
                        let up = UpdateMerkleProof::new(vec![p.clone(), p.clone()]);
                        let _ = up.verify_update(r, r, vec![(kh(&key), v.clone()), (kh(&key), None)]);
                    }
                }
                st.add("evaluations", 10);
            }
            st.add("transitions", 1);
            st.state(fp(&(n, kd, leaf)));
        }
        st.add("traces", 1);
        Ok(())
    });
    // a delete that meets every pattern of null, leaf and internal siblings of up to 7 (9)
    let maxn = if th { 9 } else { 7 };
    ctx.family("patterns", (0..=maxn).map(|n| 3usize.pow(n as u32)).sum(), |i, st| {
        let mut x = i;
        let mut n = 0;
        while x >= 3usize.pow(n as u32) {
            x -= 3usize.pow(n as u32);
            n += 1;
        }
        let mut sibs = vec![];
        for j in 0..n {
            sibs.push(kind(x % 3, j));
            x /= 3;
        }
        let hs: Vec<K> = sibs.iter().map(|s| s.hash::<Sha256>()).collect();
        for key in &bs {
            for leaf in [None, Some((*key, [3; 32])), Some((flip(key, n), [4; 32])), Some((flip(key, 255), [4; 32])), Some((flip(key, 17), [4; 32]))] {
                let start = leaf.map_or(PLACEHOLDER, |(k, v)| hleaf::<Sha256>(&k, &v));
                let r = RootHash(fold::<Sha256>(start, key, &hs));
                let p = forge::<Sha256>(leaf, &sibs)?;
                for v in [Some(va(0)), None] {
                    let up = UpdateMerkleProof::new(vec![p.clone()]);
                    let _ = up.verify_update(r, r, vec![(kh(key), v)]);
                    st.add("evaluations", 1);
                }
                let _ = p.verify_nonexistence(r, kh(key));
            }
        }
        st.add("transitions", 1);
        st.state(fp(&i));
        Ok(())
    });
    // mismatched numbers of proofs and updates
    ctx.family("counts", 36, |i, st| {
        let (a, b) = (i % 6, i / 6);
        let p = forge::<Sha256>(None, &[])?;
        let up = UpdateMerkleProof::new(vec![p; a]);
        let us: Vec<_> = (0..b).map(|j| (kh(&bs[j % 4]), Some(va(j)))).collect();
        let _ = up.verify_update(RootHash(PLACEHOLDER), RootHash(PLACEHOLDER), us);
        st.add("evaluations", 1);
        Ok(())
    });
    // range proofs: every number of left and right siblings
    let rl: Vec<usize> = if th { (0..=260).collect() } else { (0..=12).chain([63, 64, 100, 126, 127, 128, 129, 200]).chain(243..=260).collect() };
    ctx.family("range-proofs", rl.len() * (rl.len() + 3), |i, st| {
        let big = [300, 513, 70000];
        let nl = rl[i / (rl.len() + 3)];
        let x = i % (rl.len() + 3);
        let nr = if x < rl.len() { rl[x] } else { big[x - rl.len()] };
        for key in [bs[0], bs[1], bs[2], bs[3]] {
            for kd in 0..4 {
                if nr > 40 && kd > 1 && !th {
                    continue;
                }
                let right: Vec<Sib> = (0..nr).map(|j| kind(kd, j)).collect();
                let p: SparseMerkleRangeProof<Sha256> = dec(&enc(&PRange { right: right.clone() })?)?;
                let leaf: SparseMerkleLeafNode = LeafNode::new(kh(&key), jmt::ValueHash([1; 32])).into();
                let mut left = vec![PLACEHOLDER; nl];
                let _ = p.verify(RootHash([0; 32]), leaf, left.clone());
                if kd == 0 {
                    left.reverse();
                    let _ = p.verify(RootHash(PLACEHOLDER), leaf, vec![]);
                }
                st.add("evaluations", 2);
            }
        }
        st.add("transitions", 1);
        st.state(fp(&(nl, nr, 1)));
        Ok(())
    });
    ctx.sample(|| "a read proof with a leaf sharing 37 bits with the key and 37 null siblings, as an insertion proof against the root it folds to".into());
    mc("states are proofs: every number of siblings 0..=300 and some far beyond, of 6 kinds patterns, with no leaf, the key's leaf, or a leaf sharing any number of bits; each verified through every entry point against the roots that let it get furthest; every left/right count of range proofs; any panic (also overflow: built with overflow and debug checks) or hang is a violation")
}

// ---------------------------------------------------------------- C13
pub struct C13;
/// Hashes to the left of a key, bottom up.
pub fn left_of<H: SimpleHasher>(l: &[(K, K)], k: &K) -> Vec<K> {
    let p = spec_proof::<H>(l, k);
    let n = p.sibs.len();
    p.sibs.iter().enumerate().filter(|(i, _)| bit(k, n - 1 - i)).map(|(_, s)| s.hash::<H>()).collect()
}
pub fn smleaf(k: &K, vh: &K) -> SparseMerkleLeafNode {
    LeafNode::new(kh(k), jmt::ValueHash(*vh)).into()
}
impl C13 {
    fn check<H: SimpleHasher>(w: &World<H>, v: jmt::Version, st: &mut Stats) -> R {
        let m = w.at(v);
        let l = leaves::<H>(m);
        let root = RootHash(*w.root_at(v));
        let mut keys: Vec<K> = w.probes.to_vec();
        if m.len() <= 64 {
            keys.extend(m.keys());
        }
        for k in &keys {
            let got = w.tree().get_range_proof(kh(k), v);
            st.add("evaluations", 1);
            match m.get(k) {
                Some(val) => {
                    let p = e2s("get_range_proof", got)?;
                    let vh = hval::<H>(val);
                    let left = left_of::<H>(&l, k);
                    if let Err(e) = p.verify(root, smleaf(k, &vh), left.clone()) {
                        return Err(format!("range proof up to {} at version {v} does not verify: {e:#}", kx(k)));
                    }
                    ck!(p.verify(flip_root(&root.0, 9), smleaf(k, &vh), left.clone()).is_err(), "range proof verifies against a wrong root");
                    ck!(p.verify(root, smleaf(k, &flip(&vh, 0)), left.clone()).is_err(), "range proof verifies for another value");
                    ck!(p.verify(root, smleaf(&flip(k, 255), &vh), left.clone()).is_err(), "range proof verifies for another key");
                    for i in 0..left.len() {
                        if i > 3 && i + 3 < left.len() {
                            continue;
                        }
                        let mut x = left.clone();
                        x[i] = flip(&x[i], i);
                        ck!(p.verify(root, smleaf(k, &vh), x).is_err(), "range proof verifies with a wrong left hash");
                        let mut x = left.clone();
                        x.remove(i);
                        ck!(p.verify(root, smleaf(k, &vh), x).is_err(), "range proof verifies with a missing left hash");
                    }
                    let mut x = left.clone();
                    x.push(PLACEHOLDER);
                    ck!(p.verify(root, smleaf(k, &vh), x).is_err(), "range proof verifies with an extra left hash");
                }
                None => ck!(got.is_err(), "get_range_proof succeeds for the absent key {}", kx(k)),
            }
        }
        Ok(())
    }
}
impl<H: SimpleHasher> Oracle<H> for C13 {
    fn commit(&self, w: &World<H>, d: &Done<H>, _c: &Commit, st: &mut Stats) -> R {
        for v in new_versions(d) {
            C13::check(w, v, st)?;
        }
        Ok(())
    }
    fn end(&self, w: &World<H>, st: &mut Stats) -> R {
        let n = w.maps.len();
        for v in w.versions() {
            if n > 12 && v % 9 != 0 {
                continue;
            }
            C13::check(w, v, st)?;
        }
        Ok(())
    }
}

fn range_surgery<H: SimpleHasher>(m: &Map, brute: usize, max_pool: usize, st: &mut Stats) -> R {
    let root = spec_root::<H>(m);
    let l = leaves::<H>(m);
    let w = anchored::<H>(m, st)?;
    ck!(w.roots[0] == root, "the tree's root is not that of its contents");
    let o = other_tree(m);
    let mut po = pool::<H>(&[m, &o], &[]);
    po = thin(po, max_pool);
    let mut lvs: Vec<(K, K)> = l.clone();
    for k in targets(m, 2) {
        lvs.push((k, hval::<H>(&vb(1))));
        lvs.push((k, hval::<H>(&va(0))));
        for (_, vh) in l.iter().take(3) {
            lvs.push((k, *vh));
        }
    }
    for s in &po {
        match s {
            Sib::Internal { l, r } => lvs.push((*l, *r)),
            Sib::Leaf { k, v } => lvs.push((*k, *v)),
            Sib::Null => {}
        }
    }
    lvs.sort();
    lvs.dedup();
    let mut chains: Vec<Vec<Sib>> = sequences(&po, brute);
    let pos = positions::<H>(&l);
    let step = pos.len() / 24 + 1;
    for (i, p) in pos.iter().enumerate() {
        if i % step == 0 || matches!(p.sib, Sib::Leaf { .. }) {
            chains.extend(edits(&p.chain, &po));
        }
    }
    chains.sort();
    chains.dedup();
    let accept = |right: &[Sib], left: &[K], k: &K, vh: &K, st: &mut Stats| -> R {
        st.add("evaluations", 1);
        let p: SparseMerkleRangeProof<H> = dec(&enc(&PRange { right: right.to_vec() })?)?;
        if p.verify(RootHash(root), smleaf(k, vh), left.to_vec()).is_ok() {
            st.add("accepted true range proofs", 1);
            ck!(m.get(k).is_some_and(|v| hval::<H>(v) == *vh), "a range proof is accepted for the leaf {} which is not in the tree: {}", kx(k), show(&Some((*k, *vh)), right));
            ck!(left == left_of::<H>(&l, k), "a range proof up to {} is accepted with wrong left hashes: {}", kx(k), show(&Some((*k, *vh)), right));
        }
        Ok(())
    };
    for c in &chains {
        let n = c.len();
        if n > 256 {
            continue;
        }
        for (k, vh) in &lvs {
            // dealt out to the left and right as the key demands
            let mut right = vec![];
            let mut left = vec![];
            for (i, s) in c.iter().enumerate() {
                if bit(k, n - 1 - i) {
                    left.push(s.hash::<H>());
                } else {
                    right.push(*s);
                }
            }
            accept(&right, &left, k, vh, st)?;
        }
    }
    // honest proofs with edited lists, each side separately and one edit on each side
    for (k, vh) in &l {
        let p = spec_proof::<H>(&l, k);
        let n = p.sibs.len();
        let right: Vec<Sib> = p.sibs.iter().enumerate().filter(|(i, _)| !bit(k, n - 1 - i)).map(|x| *x.1).collect();
        let left = left_of::<H>(&l, k);
        let small: Vec<Sib> = po.iter().take(5).copied().collect();
        let hp: Vec<K> = po.iter().map(|s| s.hash::<H>()).chain([[0; 32]]).take(8).collect();
        let mut lefts: Vec<Vec<K>> = vec![left.clone()];
        for i in 0..=left.len() {
            if i > 4 && i + 4 < left.len() {
                continue;
            }
            for h in &hp {
                let mut x = left.clone();
                x.insert(i, *h);
                lefts.push(x);
                if i < left.len() {
                    let mut x = left.clone();
                    x[i] = *h;
                    lefts.push(x);
                }
            }
            if i < left.len() {
                let mut x = left.clone();
                x.remove(i);
                lefts.push(x);
                if i + 1 < left.len() {
                    let mut x = left.clone();
                    x.swap(i, i + 1);
                    lefts.push(x);
                }
            }
        }
        let rights = edits(&right, &small);
        let big = lefts.len() * rights.len() > 3000;
        for (i, a) in lefts.iter().enumerate() {
            for (j, b) in rights.iter().enumerate() {
                if big && i > 0 && j > 0 {
                    continue;
                }
                accept(b, a, k, vh, st)?;
                let (ok, ov) = l[(i + j) % l.len()];
                accept(b, a, &ok, &ov, st)?;
            }
        }
    }
    Ok(())
}

pub fn c13(ctx: &Ctx) -> Info {
    let th = ctx.thorough();
    common::<Sha256>(ctx, &C13, Load::Heavy, How::Sets);
    let us = universes();
    run_dfs::<Mix>(ctx, &Dfs::new("six-mix", &us[6].keys[..4], 1, 3, 0, How::Sets), &C13);
    bulk_shapes::<Mix>(ctx, &C13);
    let trees = tree_list(ctx);
    ctx.family("forged", trees.len(), |i, st| range_surgery::<Sha256>(&trees[i], 2, if th { 99 } else { 16 }, st));
    let bs = bases();
    ctx.family("forged-pairs", 256, |i, st| {
        let b = bs[3];
        let m: Map = [(b, va(0)), (flip(&b, i), va(1))].into();
        range_surgery::<Mix>(&m, 1, 6, st)
    });
    let ms = masks(false);
    ctx.family("forged-fans", ms.len() / if th { 1 } else { 6 }, |i, st| {
        let mask = ms[i * if th { 1 } else { 6 } + i % 5];
        let keys = fan(&bs[3], i % 2, mask, [0, 0x1111, 0xffff][i % 3] & mask);
        let m: Map = keys.iter().enumerate().map(|(j, k)| (*k, va(j))).collect();
        range_surgery::<Mix>(&m, 1, 8, st)
    });
    let _ = Rc::new(0);
    mc("range proofs of every probe key at every version of every explored history, checked with true and altered leaves, left hashes and roots; and for every small tree every proof and left part assembled from the tree's parts within the stated edits")
}
