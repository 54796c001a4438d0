//! A store, the reference model of its history, and the implementation under test on top of it.
use crate::ck;
use crate::spec::*;
use crate::store::*;
use crate::util::*;
use jmt::proof::UpdateMerkleProof;
use jmt::storage::*;
use jmt::{JellyfishMerkleTree, KeyHash, RootHash, SimpleHasher, Version};
use std::cell::RefCell;
use std::collections::BTreeSet;
use std::marker::PhantomData;
use std::rc::Rc;
use std::sync::Arc;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum How {
    /// put_value_sets
    Sets,
    /// put_value_set, one call per set
    One,
    /// put_value_sets_with_proof
    Proofs,
    /// put_value_set_with_proof, one call per set
    OneProof,
    /// batch_put_value_sets (insertions only)
    Bulk,
}

pub type Ups = Vec<(K, Option<V>)>;

/// One write call: several versions' updates.
#[derive(Clone, PartialEq, Eq)]
pub struct Commit {
    pub sets: Vec<Ups>,
    pub how: How,
}
impl std::fmt::Debug for Commit {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{:?}[", self.how)?;
        for (i, s) in self.sets.iter().enumerate() {
            if i > 0 {
                write!(f, " | ")?;
            }
            for (k, v) in s {
                match v {
                    Some(v) if v.len() <= 8 => write!(f, "put {}={} ", kx(k), hex(v))?,
                    Some(v) => write!(f, "put {}={}..({}B) ", kx(k), hex(&v[..4]), v.len())?,
                    None => write!(f, "del {} ", kx(k))?,
                }
            }
        }
        write!(f, "]")
    }
}
pub fn one(ups: Ups) -> Commit {
    Commit {
        sets: vec![ups],
        how: How::Sets,
    }
}

thread_local! {
    static HIST: RefCell<(Version, Vec<Rc<Commit>>)> = const { RefCell::new((0, vec![])) };
}
pub fn history_text() -> String {
    HIST.with(|h| {
        let h = h.borrow();
        format!("first version {}: {:?}", h.0, h.1)
    })
}

#[derive(Default)]
pub struct Undo {
    nodes: Vec<(NodeKey, Option<Node>)>,
    values: Vec<(Version, K, Option<Option<V>>)>,
    stale: Vec<StaleNodeIndex>,
}

pub struct Done<H: SimpleHasher> {
    pub first: Version,
    pub roots: Vec<K>,
    pub batches: Vec<TreeUpdateBatch>,
    /// one per version, when written with proofs
    pub proofs: Vec<UpdateMerkleProof<H>>,
    pub undo: Undo,
    /// records of the store that the commit replaced or repeated
    pub conflicts: Vec<String>,
}

pub struct World<H: SimpleHasher> {
    pub store: Arc<MemStore>,
    pub first: Version,
    pub next: Version,
    /// contents at first, first+1, ...
    pub maps: Vec<Rc<Map>>,
    pub roots: Vec<K>,
    pub probes: Rc<Vec<K>>,
    pub hist: Vec<Rc<Commit>>,
    _h: PhantomData<H>,
}

pub fn kh(k: &K) -> KeyHash {
    KeyHash(*k)
}
pub fn as_sets(s: &[Ups]) -> Vec<Vec<(KeyHash, Option<V>)>> {
    s.iter()
        .map(|u| u.iter().map(|(k, v)| (kh(k), v.clone())).collect())
        .collect()
}
pub fn e2s<T>(what: &str, r: anyhow::Result<T>) -> R<T> {
    r.map_err(|e| format!("{what} failed: {e:#}"))
}

/// Calls the chosen write interface. Pure: nothing is stored.
#[allow(clippy::type_complexity)]
pub fn compute<H: SimpleHasher>(
    store: &MemStore,
    sets: &[Ups],
    how: How,
    next: Version,
) -> anyhow::Result<(Vec<K>, TreeUpdateBatch, Vec<UpdateMerkleProof<H>>)> {
    let tree = JellyfishMerkleTree::<MemStore, H>::new(store);
    Ok(match how {
        How::Sets => {
            let (r, b) = tree.put_value_sets(as_sets(sets), next)?;
            (r.into_iter().map(|r| r.0).collect(), b, vec![])
        }
        How::One => {
            assert_eq!(sets.len(), 1);
            let (r, b) = tree.put_value_set(as_sets(sets).pop().unwrap(), next)?;
            (vec![r.0], b, vec![])
        }
        How::Proofs => {
            let (rp, b) = tree.put_value_sets_with_proof(as_sets(sets), next)?;
            let (r, p): (Vec<RootHash>, Vec<_>) = rp.into_iter().unzip();
            (r.into_iter().map(|r| r.0).collect(), b, p)
        }
        How::OneProof => {
            assert_eq!(sets.len(), 1);
            let (r, p, b) = tree.put_value_set_with_proof(as_sets(sets).pop().unwrap(), next)?;
            (vec![r.0], b, vec![p])
        }
        How::Bulk => {
            let s: Vec<Vec<(KeyHash, V)>> = sets
                .iter()
                .map(|u| u.iter().map(|(k, v)| (kh(k), v.clone().unwrap())).collect())
                .collect();
            let (r, b) = tree.batch_put_value_sets(s, None, next)?;
            (r.into_iter().map(|r| r.0).collect(), b, vec![])
        }
    })
}

pub fn apply_logged(store: &MemStore, b: &TreeUpdateBatch, undo: &mut Undo, conflicts: &mut Vec<String>) {
    for (k, n) in b.node_batch.nodes() {
        let old = store.put_node(k.clone(), n.clone());
        if old.is_some() {
            conflicts.push(format!("commit replaces the stored node {k:?}"));
        }
        undo.nodes.push((k.clone(), old));
    }
    for ((ver, k), v) in b.node_batch.values() {
        let old = store.put_val(*ver, k.0, v.clone());
        if old.is_some() {
            conflicts.push(format!("commit replaces the stored value of {k:?} at {ver}"));
        }
        undo.values.push((*ver, k.0, old));
    }
    for s in &b.stale_node_index_batch {
        if store.stale.borrow_mut().insert(s.clone()) {
            undo.stale.push(s.clone());
        } else {
            conflicts.push(format!("node reported stale twice: {s:?}"));
        }
    }
}
pub fn undo_apply(store: &MemStore, u: &Undo) {
    for (k, old) in u.nodes.iter().rev() {
        match old {
            None => {
                store.nodes.borrow_mut().remove(k);
            }
            Some(n) => {
                store.put_node(k.clone(), n.clone());
            }
        }
    }
    for (ver, k, old) in u.values.iter().rev() {
        match old {
            None => store.del_val(*ver, k),
            Some(v) => {
                store.put_val(*ver, *k, v.clone());
            }
        }
    }
    for s in &u.stale {
        store.stale.borrow_mut().remove(s);
    }
}

impl<H: SimpleHasher> World<H> {
    pub fn new(first: Version, probes: Rc<Vec<K>>) -> Self {
        HIST.with(|h| *h.borrow_mut() = (first, vec![]));
        World {
            store: Arc::new(MemStore::default()),
            first,
            next: first,
            maps: vec![],
            roots: vec![],
            probes,
            hist: vec![],
            _h: PhantomData,
        }
    }
    /// A world over a copy of the store (for destructive experiments).
    pub fn fork(&self) -> Self {
        World {
            store: Arc::new((*self.store).clone()),
            first: self.first,
            next: self.next,
            maps: self.maps.clone(),
            roots: self.roots.clone(),
            probes: self.probes.clone(),
            hist: self.hist.clone(),
            _h: PhantomData,
        }
    }
    pub fn tree(&self) -> JellyfishMerkleTree<'_, MemStore, H> {
        JellyfishMerkleTree::new(&self.store)
    }
    pub fn empty() -> Rc<Map> {
        Rc::new(Map::new())
    }
    pub fn cur(&self) -> Rc<Map> {
        self.maps.last().cloned().unwrap_or_default()
    }
    pub fn latest(&self) -> Option<Version> {
        (!self.maps.is_empty()).then(|| self.next - 1)
    }
    pub fn at(&self, v: Version) -> &Rc<Map> {
        &self.maps[(v - self.first) as usize]
    }
    pub fn root_at(&self, v: Version) -> &K {
        &self.roots[(v - self.first) as usize]
    }
    pub fn versions(&self) -> impl Iterator<Item = Version> {
        self.first..self.next
    }
    pub fn commit(&mut self, c: &Rc<Commit>) -> R<Done<H>> {
        HIST.with(|h| h.borrow_mut().1.push(c.clone()));
        self.hist.push(c.clone());
        let mut done = Done {
            first: self.next,
            roots: vec![],
            batches: vec![],
            proofs: vec![],
            undo: Undo::default(),
            conflicts: vec![],
        };
        let per_call: Vec<&[Ups]> = match c.how {
            How::One | How::OneProof => c.sets.chunks(1).collect(),
            _ => vec![&c.sets[..]],
        };
        for sets in per_call {
            let at = done.first + done.roots.len() as u64;
            let (r, b, p) = e2s("write", compute::<H>(&self.store, sets, c.how, at))?;
            ck!(
                r.len() == sets.len(),
                "{} root hashes for {} versions",
                r.len(),
                sets.len()
            );
            apply_logged(&self.store, &b, &mut done.undo, &mut done.conflicts);
            done.roots.extend(r);
            done.batches.push(b);
            done.proofs.extend(p);
        }
        for s in &c.sets {
            let m = apply_updates(&self.cur(), s);
            self.maps.push(Rc::new(m));
        }
        self.roots.extend(done.roots.iter().copied());
        self.next += c.sets.len() as u64;
        Ok(done)
    }
    pub fn undo(&mut self, d: &Done<H>) {
        HIST.with(|h| h.borrow_mut().1.pop());
        self.hist.pop();
        undo_apply(&self.store, &d.undo);
        for _ in 0..d.roots.len() {
            self.maps.pop();
            self.roots.pop();
            self.next -= 1;
        }
    }
    /// Runs `f` on the storage as it was before the (last) commit `d`.
    pub fn before<T>(&self, d: &Done<H>, f: impl FnOnce() -> T) -> T {
        undo_apply(&self.store, &d.undo);
        let r = f();
        let mut u = Undo::default();
        let mut c = vec![];
        for b in &d.batches {
            apply_logged(&self.store, b, &mut u, &mut c);
        }
        r
    }
    /// Contents before the commit.
    pub fn map_before(&self, d: &Done<H>) -> Rc<Map> {
        let n = self.maps.len() - d.roots.len();
        if n == 0 {
            Rc::default()
        } else {
            self.maps[n - 1].clone()
        }
    }
    pub fn root_before(&self, d: &Done<H>) -> K {
        let n = self.roots.len() - d.roots.len();
        if n == 0 {
            PLACEHOLDER
        } else {
            self.roots[n - 1]
        }
    }
    pub fn state_fp(&self) -> u64 {
        fp(&(self.next, &*self.cur()))
    }
}

/// Walks the tree of a version through raw storage. Returns the keys of all its nodes, or what is
/// structurally wrong with it: a missing node, a wrong hash, count or kind, a leaf off its path,
/// an internal node that should have been collapsed.
pub fn walk<H: SimpleHasher>(store: &MemStore, v: Version) -> R<(BTreeSet<NodeKey>, Leaves)> {
    let mut keys = BTreeSet::new();
    let mut leaves = vec![];
    let rk = root_key(v);
    let Some(root) = store.raw_node(&rk) else {
        return Err(format!("no root node at version {v}"));
    };
    if let Node::Null = root {
        keys.insert(rk);
        return Ok((keys, leaves));
    }
    walk_rec::<H>(store, rk, root, None, &mut keys, &mut leaves)?;
    Ok((keys, leaves))
}
fn walk_rec<H: SimpleHasher>(
    store: &MemStore,
    key: NodeKey,
    node: Node,
    expect: Option<(K, bool, usize)>,
    keys: &mut BTreeSet<NodeKey>,
    leaves: &mut Leaves,
) -> R<usize> {
    let n = match &node {
        Node::Null => return Err(format!("null node inside the tree at {key:?}")),
        Node::Leaf(l) => {
            let path: Vec<u8> = key.nibble_path().nibbles().map(u8::from).collect();
            let k = l.key_hash().0;
            for (i, p) in path.iter().enumerate() {
                ck!(nib(&k, i) == *p, "leaf {} stored off its path at {key:?}", kx(&k));
            }
            if let Some((h, is_leaf, cnt)) = expect {
                ck!(is_leaf && cnt == 1, "parent of {key:?} records a wrong kind");
                ck!(h == l.hash::<H>(), "parent of {key:?} records a wrong hash");
            }
            // the value hash is private; recover it through the encoding
            let enc = borsh::to_vec(l).map_err(|e| e.to_string())?;
            let vh: K = enc[32..64].try_into().map_err(|_| "leaf encoding")?;
            leaves.push((k, vh));
            1
        }
        Node::Internal(i) => {
            let mut cnt = 0;
            let mut only = 0;
            let mut nch = 0;
            for (nb, ch) in i.children_sorted() {
                let ck = NodeKey::new(
                    ch.version,
                    key.nibble_path()
                        .nibbles()
                        .chain(std::iter::once(nb))
                        .collect::<NibblePath>(),
                );
                let Some(cn) = store.raw_node(&ck) else {
                    return Err(format!("node {ck:?} is missing"));
                };
                let c = walk_rec::<H>(
                    store,
                    ck,
                    cn,
                    Some((ch.hash, ch.is_leaf(), ch.leaf_count())),
                    keys,
                    leaves,
                )?;
                cnt += c;
                nch += 1;
                only = c;
            }
            ck!(nch > 0, "internal node without children at {key:?}");
            ck!(
                nch > 1 || only > 1,
                "internal node with a lone leaf was not collapsed at {key:?}"
            );
            ck!(i.leaf_count() == cnt, "wrong leaf count at {key:?}");
            if let Some((h, is_leaf, c)) = expect {
                ck!(!is_leaf && c == cnt, "parent of {key:?} records a wrong kind or count");
                ck!(h == i.hash::<H>(), "parent of {key:?} records a wrong hash");
            }
            cnt
        }
    };
    if !keys.insert(key.clone()) {
        return Err(format!("node {key:?} reached twice"));
    }
    Ok(n)
}

/// Shape of a version's tree without versions: (nibbles, leaf count, leaf key).
pub fn shape<H: SimpleHasher>(store: &MemStore, v: Version) -> R<Vec<(Vec<u8>, u64)>> {
    let (keys, _) = walk::<H>(store, v)?;
    let mut out: Vec<(Vec<u8>, u64)> = keys
        .iter()
        .map(|k| {
            let p: Vec<u8> = k.nibble_path().nibbles().map(u8::from).collect();
            let f = match store.raw_node(k).unwrap() {
                Node::Null => 0,
                Node::Leaf(l) => fp(&l.hash::<H>()),
                Node::Internal(i) => fp(&i.hash::<H>()),
            };
            (p, f)
        })
        .collect();
    out.sort();
    Ok(out)
}
