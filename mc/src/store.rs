//! An in-memory store of our own. Every access is a seam: a hook runs before it, and may fail it
//! (fault injection) or run other operations (schedule exploration).
use crate::util::*;
use anyhow::{bail, Result};
use jmt::storage::*;
use jmt::{KeyHash, OwnedValue, Version};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, BTreeSet, HashMap};

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Call {
    Node(NodeKey),
    Value(Version, K),
    Rightmost,
    Preimage(K),
    Write,
}
pub type Hook = Box<dyn FnMut(&MemStore, &Call) -> Result<()>>;

#[derive(Default)]
pub struct MemStore {
    pub nodes: RefCell<HashMap<NodeKey, Node, FxBuild>>,
    /// per key: values by version
    pub values: RefCell<HashMap<K, BTreeMap<Version, Option<V>>, FxBuild>>,
    pub stale: RefCell<BTreeSet<StaleNodeIndex>>,
    pub preimages: RefCell<HashMap<K, Vec<u8>, FxBuild>>,
    pub hook: RefCell<Option<Hook>>,
    pub calls: Cell<u64>,
    /// batches written through TreeWriter
    pub writes: Cell<u64>,
}

impl Clone for MemStore {
    fn clone(&self) -> Self {
        MemStore {
            nodes: self.nodes.clone(),
            values: self.values.clone(),
            stale: self.stale.clone(),
            preimages: self.preimages.clone(),
            ..Default::default()
        }
    }
}
// The harness uses each store from a single thread only (see Ctx::family).

impl MemStore {
    fn seam(&self, c: Call) -> Result<()> {
        self.calls.set(self.calls.get() + 1);
        let h = self.hook.borrow_mut().take();
        if let Some(mut h) = h {
            let r = h(self, &c);
            let mut slot = self.hook.borrow_mut();
            if slot.is_none() {
                *slot = Some(h);
            }
            return r;
        }
        Ok(())
    }
    pub fn set_hook(&self, h: Option<Hook>) {
        *self.hook.borrow_mut() = h;
    }
    pub fn put_node(&self, k: NodeKey, n: Node) -> Option<Node> {
        self.nodes.borrow_mut().insert(k, n)
    }
    pub fn put_val(&self, ver: Version, k: K, v: Option<V>) -> Option<Option<V>> {
        self.values.borrow_mut().entry(k).or_default().insert(ver, v)
    }
    pub fn del_val(&self, ver: Version, k: &K) {
        let mut vs = self.values.borrow_mut();
        if let Some(m) = vs.get_mut(k) {
            m.remove(&ver);
            if m.is_empty() {
                vs.remove(k);
            }
        }
    }
    /// Applies a whole write batch. Errs if it would replace an existing record by a different one.
    pub fn apply(&self, b: &TreeUpdateBatch) -> Result<(), String> {
        for (k, n) in b.node_batch.nodes() {
            if let Some(old) = self.put_node(k.clone(), n.clone()) {
                return Err(format!(
                    "commit replaces the stored node {k:?} (was {old:?}, now {n:?})"
                ));
            }
        }
        for ((ver, k), v) in b.node_batch.values() {
            if self.put_val(*ver, k.0, v.clone()).is_some() {
                return Err(format!("commit replaces the stored value of {k:?} at {ver}"));
            }
        }
        for s in &b.stale_node_index_batch {
            if !self.stale.borrow_mut().insert(s.clone()) {
                return Err(format!("node reported stale twice: {s:?}"));
            }
        }
        Ok(())
    }
    /// As `apply`, overwriting silently.
    pub fn apply_overwrite(&self, b: &TreeUpdateBatch) {
        for (k, n) in b.node_batch.nodes() {
            self.put_node(k.clone(), n.clone());
        }
        for ((ver, k), v) in b.node_batch.values() {
            self.put_val(*ver, k.0, v.clone());
        }
        for s in &b.stale_node_index_batch {
            self.stale.borrow_mut().insert(s.clone());
        }
    }
    /// Undoes `apply` (records of a batch are always new).
    pub fn unapply(&self, b: &TreeUpdateBatch) {
        let mut n = self.nodes.borrow_mut();
        for (k, _) in b.node_batch.nodes() {
            n.remove(k);
        }
        drop(n);
        for ((ver, k), _) in b.node_batch.values() {
            self.del_val(*ver, &k.0);
        }
        let mut s = self.stale.borrow_mut();
        for x in &b.stale_node_index_batch {
            s.remove(x);
        }
    }
    /// Deletes all nodes reported stale at or before `v`. Returns how many.
    pub fn prune(&self, v: Version) -> Result<usize, String> {
        let due: Vec<StaleNodeIndex> = self
            .stale
            .borrow()
            .iter()
            .filter(|s| s.stale_since_version <= v)
            .cloned()
            .collect();
        for s in &due {
            if self.nodes.borrow_mut().remove(&s.node_key).is_none() {
                return Err(format!("stale index names a node that is not stored: {s:?}"));
            }
            self.stale.borrow_mut().remove(s);
        }
        Ok(due.len())
    }
    pub fn raw_node(&self, k: &NodeKey) -> Option<Node> {
        self.nodes.borrow().get(k).cloned()
    }
    /// Sorted dump of everything, for equality.
    pub fn same_as(&self, o: &MemStore) -> bool {
        *self.nodes.borrow() == *o.nodes.borrow()
            && *self.values.borrow() == *o.values.borrow()
            && *self.stale.borrow() == *o.stale.borrow()
    }
}

impl TreeReader for MemStore {
    fn get_node_option(&self, node_key: &NodeKey) -> Result<Option<Node>> {
        if self.hook.borrow().is_some() {
            self.seam(Call::Node(node_key.clone()))?;
        }
        Ok(self.nodes.borrow().get(node_key).cloned())
    }
    fn get_value_option(&self, max: Version, key: KeyHash) -> Result<Option<OwnedValue>> {
        if self.hook.borrow().is_some() {
            self.seam(Call::Value(max, key.0))?;
        }
        Ok(match self.values.borrow().get(&key.0) {
            None => None,
            Some(m) => match m.range(..=max).next_back() {
                None => None,
                Some((_, v)) => v.clone(),
            },
        })
    }
    fn get_rightmost_leaf(&self) -> Result<Option<(NodeKey, LeafNode)>> {
        if self.hook.borrow().is_some() {
            self.seam(Call::Rightmost)?;
        }
        let n = self.nodes.borrow();
        let mut best: Option<(NodeKey, LeafNode)> = None;
        for (k, v) in n.iter() {
            if let Node::Leaf(l) = v {
                let better = match &best {
                    None => true,
                    // Greatest key; among several versions of it, the newest.
                    Some((bk, bl)) => {
                        (l.key_hash(), k.version()) > (bl.key_hash(), bk.version())
                    }
                };
                if better {
                    best = Some((k.clone(), l.clone()));
                }
            }
        }
        Ok(best)
    }
}
impl HasPreimage for MemStore {
    fn preimage(&self, key_hash: KeyHash) -> Result<Option<Vec<u8>>> {
        if self.hook.borrow().is_some() {
            self.seam(Call::Preimage(key_hash.0))?;
        }
        Ok(self.preimages.borrow().get(&key_hash.0).cloned())
    }
}
impl TreeWriter for MemStore {
    /// Atomic: a failing hook means nothing was written.
    fn write_node_batch(&self, b: &NodeBatch) -> Result<()> {
        if self.hook.borrow().is_some() {
            self.seam(Call::Write)?;
        }
        self.writes.set(self.writes.get() + 1);
        for (k, n) in b.nodes() {
            if let Some(old) = self.put_node(k.clone(), n.clone()) {
                if old != *n {
                    bail!("write replaces node {k:?} by a different one");
                }
            }
        }
        for ((ver, k), v) in b.values() {
            self.put_val(*ver, k.0, v.clone());
        }
        Ok(())
    }
}

pub fn root_key(v: Version) -> NodeKey {
    NodeKey::new(v, std::iter::empty().collect::<NibblePath>())
}
