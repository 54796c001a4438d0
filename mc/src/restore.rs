//! Restoring a tree from chunks: C14, C15, C16.
use crate::basic::*;
use crate::forge::*;
use crate::shapes::*;
use crate::spec::*;
use crate::store::*;
use crate::util::*;
use crate::world::*;
use crate::{ck, mc, Info};
use jmt::proof::SparseMerkleRangeProof;
use jmt::restore::{JellyfishMerkleRestore, StateSnapshotReceiver};
use jmt::storage::*;
use jmt::{RootHash, SimpleHasher, Version};
use sha2::Sha256;
use std::collections::{HashMap, HashSet, VecDeque};
use std::sync::Arc;

pub type Pairs = Vec<(K, V)>;

/// A tree to copy, the honest proofs for it, and what the copy must look like.
pub struct Source<H: SimpleHasher> {
    pub w: World<H>,
    pub m: Map,
    pub pairs: Pairs,
    pub root: K,
    proofs: Vec<SparseMerkleRangeProof<H>>,
    /// version of the copy
    pub v: Version,
    pub want: Arc<MemStore>,
}
impl<H: SimpleHasher> Source<H> {
    /// The source gets its contents through detours in several versions.
    pub fn new(m: &Map, v: Version, detour: bool) -> R<Self> {
        let keys: Vec<K> = m.keys().copied().collect();
        let mut w = if detour && !m.is_empty() {
            let pr = probes(&keys, keys.len() + 6);
            let mut w = World::<H>::new(3, std::rc::Rc::new(pr.clone()));
            let c = |u: Ups| std::rc::Rc::new(one(u));
            let mut u: Ups = vec![];
            for (i, k) in pr.iter().enumerate() {
                u.push((*k, Some(vb(i + 60))));
            }
            w.commit(&c(u))?;
            w.commit(&c(pr.iter().filter(|k| !m.contains_key(*k)).map(|k| (*k, None)).collect()))?;
            for (k, x) in m.iter().take(3) {
                w.commit(&c(vec![(*k, Some(x.clone()))]))?;
            }
            w.commit(&c(m.iter().map(|(k, x)| (*k, Some(x.clone()))).collect()))?;
            w
        } else {
            build::<H>(m, 0)?
        };
        let sv = w.latest().unwrap();
        let root = *w.root_at(sv);
        ck!(root == spec_root::<H>(m), "the source tree's root is not that of its contents");
        let mut proofs = vec![];
        for k in &keys {
            proofs.push(e2s("get_range_proof", w.tree().get_range_proof(kh(k), sv))?);
        }
        w.next = sv + 1;
        let built = build::<H>(m, v)?.store;
        // exactly the nodes of the built tree
        let (used, _) = walk::<H>(&built, v)?;
        let want = MemStore::default();
        for k in &used {
            want.put_node(k.clone(), built.raw_node(k).unwrap());
        }
        *want.values.borrow_mut() = built.values.borrow().clone();
        Ok(Source {
            pairs: m.iter().map(|(k, x)| (*k, x.clone())).collect(),
            m: m.clone(),
            w,
            root,
            proofs,
            v,
            want: Arc::new(want),
        })
    }
    pub fn proof(&self, last: usize) -> SparseMerkleRangeProof<H> {
        self.proofs[last].clone()
    }
    pub fn open(&self, store: &Arc<MemStore>) -> anyhow::Result<JellyfishMerkleRestore<H>> {
        JellyfishMerkleRestore::new(store.clone(), self.v, RootHash(self.root))
    }
    pub fn overwrite(&self, store: &Arc<MemStore>) -> anyhow::Result<JellyfishMerkleRestore<H>> {
        JellyfishMerkleRestore::new_overwrite(store.clone(), self.v, RootHash(self.root))
    }
    pub fn chunk(&self, a: usize, b: usize) -> Vec<(jmt::KeyHash, V)> {
        self.pairs[a..b].iter().map(|(k, v)| (kh(k), v.clone())).collect()
    }
    /// Feeds the pairs a..b as one honest chunk.
    pub fn feed(&self, r: &mut JellyfishMerkleRestore<H>, a: usize, b: usize) -> anyhow::Result<()> {
        r.add_chunk(self.chunk(a, b), self.proof(b - 1))
    }
    /// How many pairs from the start are covered by the stored leaves.
    pub fn resume_at(&self, store: &MemStore) -> usize {
        match store.get_rightmost_leaf().unwrap() {
            None => 0,
            Some((_, l)) => self.pairs.partition_point(|(k, _)| *k <= l.key_hash().0),
        }
    }
    /// The copy must be exactly the tree.
    pub fn complete(&self, store: &Arc<MemStore>, what: &str) -> R {
        let same = *store.nodes.borrow() == *self.want.nodes.borrow();
        if !same {
            let (keys, leaves) = walk::<H>(store, self.v).map_err(|e| format!("{what}: {e}"))?;
            return Err(format!(
                "{what}: the restored nodes differ: {} stored, {} reachable, {} expected, {} leaves",
                store.nodes.borrow().len(),
                keys.len(),
                self.want.nodes.borrow().len(),
                leaves.len()
            ));
        }
        ck!(*store.values.borrow() == *self.want.values.borrow(), "{what}: the restored values differ");
        Ok(())
    }
}

/// The cuts of a composition of `n` given by the bits of `c`.
pub fn cuts(n: usize, c: usize) -> Vec<(usize, usize)> {
    let mut out = vec![];
    let mut a = 0;
    for i in 1..n {
        if c >> ((i - 1) % 60) & 1 == 1 {
            out.push((a, i));
            a = i;
        }
    }
    if n > 0 {
        out.push((a, n));
    }
    out
}
fn some_cuts(n: usize, all_up_to: usize) -> Vec<Vec<(usize, usize)>> {
    if n <= all_up_to {
        return (0..1usize << n.saturating_sub(1)).map(|c| cuts(n, c)).collect();
    }
    let by = |s: usize| -> Vec<(usize, usize)> {
        (0..n).step_by(s).map(|a| (a, (a + s).min(n))).collect()
    };
    let mut out = vec![by(1), by(2), by(3), by(n)];
    for i in [1, 2, n / 3, n / 2, n - 1] {
        if i > 0 && i < n {
            out.push(vec![(0, i), (i, n)]);
        }
    }
    out.push(cuts(n, 0x5b6d_b6b5));
    out.sort();
    out.dedup();
    out
}

// ---------------------------------------------------------------- C14
fn restore_all<H: SimpleHasher>(m: &Map, v: Version, detour: bool, all_up_to: usize, st: &mut Stats) -> R {
    let s = Source::<H>::new(m, v, detour)?;
    let keys: Vec<K> = m.keys().copied().collect();
    let pr: Vec<K> = thin(probes(&keys, keys.len() + 6), 40);
    st.state(fp(&(m, v)));
    for (i, c) in some_cuts(m.len(), all_up_to).iter().enumerate() {
        detail(|| format!("restoring {} pairs at version {v} in chunks {c:?}: {:?}", m.len(), thin(keys.iter().map(kx).collect(), 8)));
        let store = Arc::new(MemStore::default());
        let mut r = e2s("new", if i % 3 == 2 { s.overwrite(&store) } else { s.open(&store) })?;
        for (a, b) in c {
            e2s("add_chunk of an honest chunk", s.feed(&mut r, *a, *b))?;
            st.add("transitions", 1);
        }
        if i % 2 == 0 {
            e2s("finish", r.finish())?;
        } else {
            e2s("finish", Box::new(r).finish_box())?;
        }
        st.add("transitions", 1);
        st.add("traces", 1);
        s.complete(&store, "after an uninterrupted restore")?;
        if i == 0 {
            // the reading interfaces on it, and further writes
            ck!(observe::<H>(&store, v, &pr)? == observe::<H>(&s.want, v, &pr)?, "the restored tree reads differently");
            for k in &pr {
                let t = jmt::JellyfishMerkleTree::<MemStore, H>::new(&store);
                let (val, p) = e2s("get_with_proof", t.get_with_proof(kh(k), v))?;
                ck!(val.as_ref() == m.get(k), "the restored tree answers {} wrongly", kx(k));
                ck!(p.verify(RootHash(s.root), kh(k), val.as_ref()).is_ok(), "the restored tree gives a wrong proof");
                st.add("evaluations", 1);
            }
            ck!(collect_iter(e2s("iterator", jmt::JellyfishMerkleIterator::new(store.clone(), v, kh(&[0; 32])))?)? == s.pairs, "the restored tree iterates wrongly");
            let mut follow: Vec<Ups> = vec![vec![]];
            for k in pr.iter().take(4) {
                follow.push(vec![(*k, Some(va(77)))]);
                follow.push(vec![(*k, None)]);
            }
            for u in follow {
                let want = spec_root::<H>(&apply_updates(m, &u));
                let (r, b, _) = e2s("write after restoring", compute::<H>(&store, &[u], How::Sets, v + 1))?;
                ck!(r[0] == want, "a write to the restored tree gives a wrong root");
                let o = (*store).clone();
                o.apply(&b)?;
                walk::<H>(&o, v + 1)?;
                st.add("evaluations", 1);
            }
        }
    }
    Ok(())
}
/// The same keys, all with one value.
fn equal(m: &Map) -> Map {
    m.keys().map(|k| (*k, va(0))).collect()
}
fn map_of(keys: &[K]) -> Map {
    keys.iter().enumerate().map(|(i, k)| (*k, va(i))).collect()
}
pub fn c14(ctx: &Ctx) -> Info {
    let th = ctx.thorough();
    let bs = bases();
    let trees = small_trees();
    ctx.family("small-trees", trees.len() * 4, |i, st| {
        restore_all::<Sha256>(&trees[i / 4], [0, 1, 7, 1 << 40][i % 4], i % 2 == 1, if th { 12 } else { 8 }, st)
    });
    ctx.family("equal-values", trees.len(), |i, st| restore_all::<Mix>(&equal(&trees[i]), 1, i % 2 == 1, if th { 12 } else { 8 }, st));
    ctx.family("pairs", 256 * 4, |i, st| {
        let b = bs[i / 256];
        restore_all::<Sha256>(&map_of(&[b, flip(&b, i % 256)]), (i % 3) as u64, i % 2 == 0, 6, st)
    });
    let ds: Vec<usize> = if th { (0..256).collect() } else { depths(false) };
    let n = ds.len();
    ctx.family("triples", n * n * 2, |i, st| {
        let (a, b) = (ds[i / 2 % n], ds[i / 2 / n]);
        if a == b {
            return Ok(());
        }
        let x = bs[if i % 4 < 2 { 3 } else { 0 }];
        let z = if i % 2 == 0 { flip(&x, b) } else { flip(&flip(&x, a), b) };
        restore_all::<Mix>(&map_of(&[x, flip(&x, a), z]), (i % 3) as u64, false, 6, st)
    });
    let ms = masks(th);
    ctx.family("fans", ms.len(), |i, st| {
        let tw = [0u16, 0x1111, 0xffff, 0x8001][i % 4] & ms[i];
        let mut keys = fan(&bs[[0, 1, 3][i % 3]], [0, 1, 2, 63][(i / 4) % 4], ms[i], tw);
        if i % 5 == 0 {
            keys.push(flip(&keys[0].clone(), 1));
        }
        restore_all::<Mix>(&map_of(&keys), (i % 2) as u64, i % 7 == 0, 5, st)
    });
    let slots: &[u8] = if th { &[0, 1, 2, 3, 4, 7, 8, 12, 14, 15] } else { &[0, 1, 2, 3, 7, 8, 14, 15] };
    ctx.family("slots", 3usize.pow(slots.len() as u32) - 1, |i, st| {
        let mut x = i + 1;
        let (mut m, mut tw) = (0u16, 0u16);
        for s in slots {
            match x % 3 {
                1 => m |= 1 << s,
                2 => {
                    m |= 1 << s;
                    tw |= 1 << s
                }
                _ => {}
            }
            x /= 3;
        }
        restore_all::<Mix>(&map_of(&fan(&bs[i % 4], i % 3, m, tw)), 1, false, 5, st)
    });
    ctx.family("big", 7, |i, st| {
        let keys = match i {
            0 => comb(&bs[0], 256),
            1 => comb(&bs[1], 256),
            2 => comb(&bs[3], 256),
            3 => dense(),
            4 => many(if th { 2000 } else { 300 }),
            5 => many(90),
            _ => comb(&bs[2], 64),
        };
        restore_all::<Sha256>(&map_of(&keys), i as u64, false, 0, st)
    });
    let lens: Vec<usize> = (0..70).chain([255, 256, 1000, 65536]).collect();
    ctx.family("value-lengths", lens.len(), |i, st| {
        let us = universes();
        let k = &us[i % us.len()].keys;
        let m: Map = k.iter().enumerate().map(|(j, k)| (*k, vec![j as u8; lens[(i + j) % lens.len()]])).collect();
        restore_all::<Sha256>(&m, 2, false, 4, st)
    });
    mc("states are the trees restored; for small trees every composition into chunks is executed, the restored store compared record by record with that of a written tree")
}

// ---------------------------------------------------------------- C15
/// Explicit-state search: states are store contents; from each, a new restore is opened (both
/// ways), fed every composition of the remaining pairs, and killed at every write.
fn interrupted<H: SimpleHasher>(m: &Map, v: Version, all_up_to: usize, st: &mut Stats) -> R {
    let s = Source::<H>::new(m, v, false)?;
    let n = m.len();
    let mut seen: HashSet<u64> = HashSet::new();
    let mut todo: VecDeque<Arc<MemStore>> = VecDeque::new();
    let key = |st: &MemStore| -> u64 {
        let mut ks: Vec<u64> = st.nodes.borrow().keys().map(fp).collect();
        ks.extend(st.values.borrow().keys().map(|k| fp(&(1, k))));
        ks.sort();
        fp(&ks)
    };
    let first = Arc::new(MemStore::default());
    seen.insert(key(&first));
    todo.push_back(first);
    while let Some(base) = todo.pop_front() {
        st.state(fp(&(m, key(&base))));
        let done = *base.nodes.borrow() == *s.want.nodes.borrow();
        for over in [false, true] {
            let from = if over { 0 } else { s.resume_at(&base) };
            let comps: Vec<Vec<(usize, usize)>> = some_cuts(n - from, all_up_to)
                .into_iter()
                .map(|c| c.into_iter().map(|(a, b)| (a + from, b + from)).collect())
                .collect();
            for c in &comps {
                // killed at the k-th write, or not at all
                let mut k = 0;
                loop {
                    detail(|| format!("{} pairs {:?}, {} nodes stored, {} from pair {from} in chunks {c:?}, killed at write {k}", n, thin(m.keys().map(kx).collect(), 8), base.nodes.borrow().len(), if over { "overwriting" } else { "resumed" }));
                    let store = Arc::new((*base).clone());
                    let opened = if over { s.overwrite(&store) } else { s.open(&store) };
                    st.add("evaluations", 1);
                    st.add("nontrivial", (k > 0 || from > 0) as u64);
                    let mut r = match opened {
                        Ok(r) => {
                            // a complete empty tree holds no leaf to tell it by
                            ck!(over || !done || n == 0, "opening a restore on a completed store succeeds");
                            r
                        }
                        Err(e) => {
                            ck!(!over && done && n > 0, "opening a restore fails: {e:#}");
                            ck!(store.same_as(&base), "opening a restore on a completed store changes it");
                            break;
                        }
                    };
                    let left = std::rc::Rc::new(std::cell::Cell::new(k));
                    let l2 = left.clone();
                    store.set_hook(Some(Box::new(move |_, c| {
                        if *c == Call::Write {
                            if l2.get() == 0 {
                                anyhow::bail!("killed");
                            }
                            l2.set(l2.get() - 1);
                        }
                        Ok(())
                    })));
                    let mut died = false;
                    for (a, b) in c {
                        match s.feed(&mut r, *a, *b) {
                            Ok(()) => {}
                            Err(e) => {
                                ck!(left.get() == 0, "an honest chunk {a}..{b} is rejected: {e:#}");
                                died = true;
                                break;
                            }
                        }
                        st.add("transitions", 1);
                    }
                    if !died {
                        match r.finish() {
                            Ok(()) => {}
                            Err(e) => {
                                ck!(left.get() == 0, "finish fails: {e:#}");
                                died = true;
                            }
                        }
                        st.add("transitions", 1);
                    }
                    store.set_hook(None);
                    st.add("traces", 1);
                    if !died {
                        s.complete(&store, "after resuming")?;
                    }
                    if seen.insert(key(&store)) {
                        todo.push_back(store);
                    }
                    if !died {
                        break;
                    }
                    k += 1;
                    ck!(k < 10_000, "a restore does not end");
                }
            }
        }
    }
    // other versions of a completed store: no crash, no damage
    for v2 in [v + 1, v.wrapping_sub(1), 0, u64::MAX] {
        let store = Arc::new((*s.want).clone());
        if let Ok(r) = JellyfishMerkleRestore::<H>::new(store.clone(), v2, RootHash(s.root)) {
            drop(r);
        }
        ck!(store.same_as(&s.want), "opening a restore at another version changes the store");
    }
    Ok(())
}
pub fn c15(ctx: &Ctx) -> Info {
    let th = ctx.thorough();
    let bs = bases();
    let trees = small_trees();
    ctx.family("small-trees", trees.len(), |i, st| interrupted::<Sha256>(&trees[i], [0, 3][i % 2], if th { 9 } else { 7 }, st));
    ctx.family("equal-values", trees.len(), |i, st| interrupted::<Mix>(&equal(&trees[i]), 1, if th { 9 } else { 6 }, st));
    ctx.family("pairs", 256 * if th { 4 } else { 2 }, |i, st| {
        let b = bs[3 - i / 256];
        interrupted::<Mix>(&map_of(&[b, flip(&b, i % 256)]), (i % 3) as u64, 6, st)
    });
    let ds = depths(th);
    let n = ds.len();
    ctx.family("triples", n * n, |i, st| {
        let (a, b) = (ds[i % n], ds[i / n]);
        if a == b {
            return Ok(());
        }
        let x = bs[if i % 2 == 0 { 3 } else { 0 }];
        let z = if i % 3 == 0 { flip(&x, b) } else { flip(&flip(&x, a), b) };
        interrupted::<Mix>(&map_of(&[x, flip(&x, a), z]), (i % 3) as u64, 6, st)
    });
    let slots: &[u8] = if th { &[0, 1, 2, 3, 7, 8, 15] } else { &[0, 1, 7, 8, 15] };
    ctx.family("slots", 3usize.pow(slots.len() as u32) - 1, |i, st| {
        let mut x = i + 1;
        let (mut m, mut tw) = (0u16, 0u16);
        for s in slots {
            match x % 3 {
                1 => m |= 1 << s,
                2 => {
                    m |= 1 << s;
                    tw |= 1 << s
                }
                _ => {}
            }
            x /= 3;
        }
        interrupted::<Mix>(&map_of(&fan(&bs[i % 4], i % 3, m, tw)), 1, if th { 7 } else { 6 }, st)
    });
    let ms = masks(false);
    let step = if th { 1 } else { 4 };
    ctx.family("fans", ms.len() / step, |i, st| {
        let mask = ms[i * step];
        let tw = [0u16, 0x1111, 0xffff, 0x8001][i % 4] & mask;
        interrupted::<Mix>(&map_of(&fan(&bs[3], [0, 1][i % 2], mask, tw)), 1, 0, st)
    });
    ctx.family("big", if th { 5 } else { 3 }, |i, st| {
        let keys = match i {
            0 => comb(&bs[3], 40),
            1 => many(40),
            2 => {
                let mut k = comb(&bs[0], 12);
                k.extend(many(12));
                k
            }
            3 => comb(&bs[1], 256),
            _ => dense(),
        };
        interrupted::<Mix>(&map_of(&keys), 1, 0, st)
    });
    Info {
        level: "fault_enumeration",
        rule: "explicit-state search over store contents: from every reachable one a restore is opened (resuming and overwriting), fed every composition of the rest (larger trees: a fixed list) and killed at every write; any number of interruptions is covered since reached contents are explored in turn. An execution is non-trivial if it was opened on a store holding leaves or was not killed at its first write",
        assumptions: vec!["a write batch is applied atomically or not at all (the restore's documented requirement)", "the caller continues with the pair after the last stored leaf", "SHA-256 (and the second hash function used) has no collisions among the explored inputs"],
    }
}

// ---------------------------------------------------------------- C16
type RProof<H> = SparseMerkleRangeProof<H>;
/// The honest proofs of all keys and edited ones.
fn proof_options<H: SimpleHasher>(s: &Source<H>, th: bool) -> R<Vec<RProof<H>>> {
    let mut seen: HashMap<Vec<u8>, ()> = HashMap::new();
    let mut out = vec![];
    let mut push = |p: PRange, out: &mut Vec<RProof<H>>| -> R {
        let b = enc(&p)?;
        if seen.insert(b.clone(), ()).is_none() {
            out.push(dec(&b)?);
        }
        Ok(())
    };
    let po = thin(pool::<H>(&[&s.m], &[]), if th { 8 } else { 4 });
    push(PRange { right: vec![] }, &mut out)?;
    for p in &s.proofs {
        let q: PRange = dec(&enc(p)?)?;
        push(PRange { right: q.right.clone() }, &mut out)?;
        if q.right.len() > 20 {
            continue;
        }
        for i in 0..=q.right.len() {
            if i < q.right.len() {
                let mut x = q.right.clone();
                x.remove(i);
                push(PRange { right: x }, &mut out)?;
            }
            if th || i == 0 || i == q.right.len() {
                for e in &po {
                    let mut x = q.right.clone();
                    x.insert(i, *e);
                    push(PRange { right: x }, &mut out)?;
                    if i < q.right.len() {
                        let mut x = q.right.clone();
                        x[i] = *e;
                        push(PRange { right: x }, &mut out)?;
                    }
                }
            }
        }
    }
    let max = if th { 40 } else { 14 };
    if out.len() > max {
        // keep the honest ones
        let honest: Vec<RProof<H>> = s.proofs.clone();
        out = thin(out, max);
        out.extend(honest);
    }
    Ok(out)
}

/// Where an attack starts: how many pairs were fed in which chunks, and whether the restore was
/// reopened afterwards.
struct Start {
    fed: Vec<(usize, usize)>,
    reopen: bool,
}
fn tampered<H: SimpleHasher>(m: &Map, v: Version, th: bool, st: &mut Stats) -> R {
    let s = Source::<H>::new(m, v, false)?;
    let n = m.len();
    let keys: Vec<K> = m.keys().copied().collect();
    let proofs = proof_options(&s, th)?;
    // pairs to make chunks of
    let mut pool: Pairs = s.pairs.clone();
    for (i, (k, _)) in s.pairs.iter().enumerate() {
        if i < 2 || th {
            pool.push((*k, vb(i + 9)));
        }
    }
    for k in probes(&keys, keys.len() + 20).into_iter().filter(|k| !m.contains_key(k)).take(if th { 4 } else { 3 }) {
        pool.push((k, va(0)));
    }
    let mut chunks: Vec<Vec<usize>> = vec![vec![]];
    let mut layer = chunks.clone();
    let maxlen = if pool.len() <= 7 || th { 3 } else { 2 };
    for _ in 0..maxlen {
        let mut nl = vec![];
        for c in &layer {
            for i in 0..pool.len() {
                let mut x = c.clone();
                x.push(i);
                nl.push(x);
            }
        }
        chunks.extend(nl.iter().cloned());
        layer = nl;
    }
    // long chunks: all the rest with one pair missing, repeated, swapped, altered
    for a in 0..n {
        let rest: Vec<usize> = (a..n).collect();
        for i in 0..rest.len() {
            let mut x = rest.clone();
            x.remove(i);
            chunks.push(x);
            let mut x = rest.clone();
            x.insert(i, rest[i]);
            chunks.push(x);
            if i + 1 < rest.len() {
                let mut x = rest.clone();
                x.swap(i, i + 1);
                chunks.push(x);
            }
            for j in n..pool.len() {
                let mut x = rest.clone();
                x[i] = j;
                chunks.push(x);
                let mut x = rest.clone();
                x.insert(i, j);
                chunks.push(x);
                let mut x = rest.clone();
                x.push(j);
                chunks.push(x);
            }
        }
    }
    chunks.sort();
    chunks.dedup();
    let mut starts: Vec<Start> = vec![];
    for j in 0..=n {
        starts.push(Start { fed: if j > 0 { vec![(0, j)] } else { vec![] }, reopen: false });
        if j > 1 {
            starts.push(Start { fed: (0..j).map(|i| (i, i + 1)).collect(), reopen: false });
        }
        if j > 1 {
            starts.push(Start { fed: vec![(0, j)], reopen: true });
        }
    }
    for start in &starts {
        st.state(fp(&(m, &start.fed, start.reopen)));
        let begin = || -> R<(Arc<MemStore>, JellyfishMerkleRestore<H>, usize)> {
            let store = Arc::new(MemStore::default());
            let mut r = e2s("new", s.open(&store))?;
            let mut at = 0;
            for (a, b) in &start.fed {
                e2s("add_chunk of an honest chunk", s.feed(&mut r, *a, *b))?;
                at = *b;
            }
            if start.reopen {
                drop(r);
                r = e2s("new", s.open(&store))?;
                at = s.resume_at(&store);
            }
            Ok((store, r, at))
        };
        let go_on = |store: &Arc<MemStore>, mut r: JellyfishMerkleRestore<H>, at: usize, what: &str| -> R {
            if at < n {
                // one by one or all at once
                if (at + n) % 2 == 0 {
                    e2s(what, s.feed(&mut r, at, n))?;
                } else {
                    for i in at..n {
                        e2s(what, s.feed(&mut r, i, i + 1))?;
                    }
                }
            }
            e2s(what, r.finish())?;
            s.complete(store, what)
        };
        // finishing too early
        {
            let (store, r, at) = begin()?;
            let before = (*store).clone();
            let res = r.finish();
            st.add("evaluations", 1);
            if at < n {
                ck!(res.is_err(), "finish succeeds after {at} of {n} pairs");
                ck!(store.same_as(&before), "a failing finish writes something");
                let r = e2s("reopening after a premature finish", s.open(&store))?;
                let at = s.resume_at(&store);
                go_on(&store, r, at, "continuing after a premature finish")?;
            } else {
                e2s("finish", res)?;
                s.complete(&store, "finish")?;
            }
        }
        let mut cur: Option<(Arc<MemStore>, JellyfishMerkleRestore<H>, usize)> = None;
        let mut since = 0;
        for c in &chunks {
            for (pi, p) in proofs.iter().enumerate() {
                let (store, mut r, at) = match cur.take() {
                    Some(x) => x,
                    None => {
                        since = 0;
                        begin()?
                    }
                };
                let ch: Vec<(jmt::KeyHash, V)> = c.iter().map(|i| (kh(&pool[*i].0), pool[*i].1.clone())).collect();
                let next = !c.is_empty() && at + c.len() <= n && c.iter().enumerate().all(|(x, i)| pool[*i] == s.pairs[at + x]);
                let before = store.writes.get();
                detail(|| format!("tree {:?}, fed {:?}{}, then chunk {:?} (pool: {:?}) with proof {}", keys.iter().map(kx).collect::<Vec<_>>(), start.fed, if start.reopen { " and reopened" } else { "" }, c, pool.iter().map(|(k, v)| format!("{}={}", kx(k), hex(&v[..v.len().min(3)]))).collect::<Vec<_>>(), pi));
                let res = r.add_chunk(ch, p.clone());
                st.add("evaluations", 1);
                st.add("transitions", 1);
                match res {
                    Ok(()) => {
                        ck!(next, "a wrong chunk is accepted");
                        st.add("accepted honest chunks", 1);
                        // the new position must be the right one
                        go_on(&store, r, at + c.len(), "continuing after an accepted chunk")?;
                        st.add("traces", 1);
                    }
                    Err(_) => {
                        ck!(store.writes.get() == before, "a rejected chunk writes something");
                        since += 1;
                        // continue honestly right away after every rejected chunk with few proofs,
                        // else after several
                        if since >= 12 || pi == 0 || (c.len() <= 1) {
                            go_on(&store, r, at, "continuing after a rejected chunk")?;
                            st.add("traces", 1);
                        } else {
                            cur = Some((store, r, at));
                        }
                    }
                }
            }
        }
        if let Some((store, r, at)) = cur {
            go_on(&store, r, at, "continuing after rejected chunks")?;
            st.add("traces", 1);
        }
        // a restore told to expect another root accepts nothing
        if n > 0 && start.fed.is_empty() {
            for bad in [flip(&s.root, 0), PLACEHOLDER, spec_root::<H>(&other(m)), [0; 32]] {
                let store = Arc::new(MemStore::default());
                let mut r = e2s("new", JellyfishMerkleRestore::<H>::new(store.clone(), v, RootHash(bad)))?;
                for b in 1..=n {
                    ck!(s.feed(&mut r, 0, b).is_err(), "a chunk of another tree is accepted");
                    st.add("evaluations", 1);
                }
                let f = r.finish();
                ck!(f.is_err() || bad == PLACEHOLDER, "finish succeeds for another root");
                ck!(f.is_ok() || store.writes.get() == 0, "a rejected restore writes something");
            }
        }
    }
    Ok(())
}
fn other(m: &Map) -> Map {
    let mut o = m.clone();
    let k = *m.keys().next().unwrap();
    o.insert(k, vb(99));
    o
}
pub fn c16(ctx: &Ctx) -> Info {
    let th = ctx.thorough();
    let bs = bases();
    let trees: Vec<Map> = small_trees().into_iter().filter(|m| m.len() <= if th { 5 } else { 4 }).collect();
    ctx.family("small-trees", trees.len(), |i, st| tampered::<Sha256>(&trees[i], (i % 2) as u64, th, st));
    ctx.family("equal-values", trees.len(), |i, st| tampered::<Mix>(&equal(&trees[i]), 0, th, st));
    ctx.family("pairs", if th { 256 } else { 64 }, |i, st| {
        let b = bs[3 - i % 2];
        let d = if th { i } else { i * 4 + i / 4 % 4 };
        tampered::<Mix>(&map_of(&[b, flip(&b, d)]), (i % 3) as u64, false, st)
    });
    let ds = if th { vec![0, 1, 2, 3, 4, 5, 6, 7, 9, 15, 64, 127, 250, 253, 255] } else { vec![0, 1, 2, 3, 4, 7, 9, 254] };
    let n = ds.len();
    ctx.family("triples", n * n * 2, |i, st| {
        let (a, b) = (ds[i / 2 % n], ds[i / 2 / n]);
        if a == b {
            return Ok(());
        }
        let x = bs[if i % 4 < 2 { 3 } else { 0 }];
        let z = if i % 2 == 0 { flip(&x, b) } else { flip(&flip(&x, a), b) };
        tampered::<Mix>(&map_of(&[x, flip(&x, a), z]), (i % 3) as u64, false, st)
    });
    mc("states are (tree, honest prefix and its chunking, reopened or not); in each every chunk of up to 2-3 pairs over a pool of right, altered and invented pairs, and every single edit of the honest remainder, is offered with every honest and edited proof; each rejection is followed by an honest continuation that must succeed")
}
