//! C21: the bundled in-memory store against a model, over every sequence of its operations.
use crate::codec::path;
use crate::shapes::*;
use crate::spec::*;
use crate::store::*;
use crate::util::*;
use crate::world::*;
use crate::{ck, mc, Info};
use jmt::mock::MockTreeStore;
use jmt::storage::*;
use jmt::{JellyfishMerkleTree, KeyHash, SimpleHasher, ValueHash, Version};
use sha2::Sha256;
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug)]
enum Op {
    PutLeaf(NodeKey, LeafNode, V),
    Batch(Vec<(NodeKey, Node)>, Vec<((Version, K), Option<V>)>),
    Update(Vec<(NodeKey, Node)>, Vec<((Version, K), Option<V>)>, Vec<StaleNodeIndex>),
    Preimage(K, Vec<u8>),
    Purge(Version),
}

#[derive(Clone, Default)]
struct Model {
    nodes: BTreeMap<NodeKey, Node>,
    values: BTreeMap<K, BTreeMap<Version, Option<V>>>,
    stale: BTreeSet<StaleNodeIndex>,
    pre: BTreeMap<K, Vec<u8>>,
}
#[derive(PartialEq, Debug)]
enum Expect {
    Ok,
    /// must be refused, by an error or (a node overwrite) a panic; the state then is unspecified
    Refused,
    /// not specified
    Either,
}
impl Model {
    fn write(&mut self, over: bool, nodes: &[(NodeKey, Node)], values: &[((Version, K), Option<V>)]) -> Expect {
        let mut e = Expect::Ok;
        for (k, n) in nodes {
            if let Some(old) = self.nodes.insert(k.clone(), n.clone()) {
                if !over {
                    if old != *n {
                        return Expect::Refused;
                    }
                    e = Expect::Either;
                }
            }
        }
        if e != Expect::Ok {
            return e;
        }
        // a batch's values come in version order
        let mut vs: Vec<_> = values.to_vec();
        vs.sort_by(|a, b| a.0.cmp(&b.0));
        for ((ver, k), v) in vs {
            let h = self.values.entry(k).or_default();
            if h.keys().next_back().is_some_and(|l| *l > ver) {
                return Expect::Refused;
            }
            h.insert(ver, v);
        }
        Expect::Ok
    }
    fn step(&mut self, over: bool, op: &Op) -> Expect {
        match op {
            Op::PutLeaf(k, l, v) => {
                if self.nodes.contains_key(k) {
                    return Expect::Refused;
                }
                self.write(over, &[(k.clone(), Node::Leaf(l.clone()))], &[((k.version(), l.key_hash().0), Some(v.clone()))])
            }
            Op::Batch(n, v) => self.write(over, n, v),
            Op::Update(n, v, s) => {
                let e = self.write(over, n, v);
                if e != Expect::Ok {
                    return e;
                }
                for x in s {
                    if !self.stale.insert(x.clone()) {
                        return Expect::Refused;
                    }
                }
                Expect::Ok
            }
            Op::Preimage(k, p) => {
                self.pre.insert(*k, p.clone());
                Expect::Ok
            }
            Op::Purge(v) => {
                let due: Vec<_> = self.stale.iter().filter(|s| s.stale_since_version <= *v).cloned().collect();
                for s in due {
                    self.stale.remove(&s);
                    if self.nodes.remove(&s.node_key).is_none() {
                        return Expect::Refused;
                    }
                }
                Expect::Ok
            }
        }
    }
}
fn batch(n: &[(NodeKey, Node)], v: &[((Version, K), Option<V>)]) -> NodeBatch {
    NodeBatch::new(n.iter().cloned().collect(), v.iter().map(|((ver, k), v)| ((*ver, kh(k)), v.clone())).collect())
}
fn real(s: &MockTreeStore, op: &Op) -> Result<(), String> {
    no_panic(|| match op {
        Op::PutLeaf(k, l, v) => s.put_leaf(k.clone(), l.clone(), v.clone()),
        Op::Batch(n, v) => s.write_node_batch(&batch(n, v)),
        Op::Update(n, v, st) => s.write_tree_update_batch(TreeUpdateBatch {
            node_batch: batch(n, v),
            stale_node_index_batch: st.iter().cloned().collect(),
            node_stats: vec![],
        }),
        Op::Preimage(k, p) => {
            s.put_key_preimage(kh(k), p);
            Ok(())
        }
        Op::Purge(v) => s.purge_stale_nodes(*v),
    })
    .and_then(|r| r.map_err(|e| e.to_string()))
}

struct Names {
    nodes: Vec<NodeKey>,
    keys: Vec<K>,
    versions: Vec<Version>,
}
fn compare(s: &MockTreeStore, m: &Model, n: &Names, st: &mut Stats) -> R {
    let f = |e: anyhow::Error| e.to_string();
    for k in &n.nodes {
        let got = s.get_node_option(k).map_err(f)?;
        ck!(got.as_ref() == m.nodes.get(k), "get_node_option({k:?}) = {got:?}, should be {:?}", m.nodes.get(k));
        ck!(s.get_node(k).ok() == got, "get_node({k:?}) disagrees with get_node_option");
        st.add("evaluations", 1);
    }
    for k in &n.keys {
        for v in &n.versions {
            let want = m.values.get(k).and_then(|h| h.range(..=*v).next_back()).and_then(|x| x.1.clone());
            let got = s.get_value_option(*v, kh(k)).map_err(f)?;
            ck!(got == want, "get_value_option({v}, {}) = {got:?}, should be {want:?}", kx(k));
            ck!(s.get_value(*v, kh(k)).ok() == want, "get_value({v}, {}) disagrees with get_value_option", kx(k));
            st.add("evaluations", 1);
        }
        let got = s.preimage(kh(k)).map_err(f)?;
        ck!(got.as_ref() == m.pre.get(k), "preimage of {} is {got:?}, should be {:?}", kx(k), m.pre.get(k));
    }
    let top = m.nodes.values().filter_map(|n| if let Node::Leaf(l) = n { Some(l.key_hash()) } else { None }).max();
    let got = s.get_rightmost_leaf().map_err(f)?;
    ck!(got.as_ref().map(|x| x.1.key_hash()) == top, "get_rightmost_leaf = {got:?}, the greatest key is {top:?}");
    if let Some((k, l)) = got {
        ck!(m.nodes.get(&k) == Some(&Node::Leaf(l)), "get_rightmost_leaf returns a node that is not stored: {k:?}");
    }
    ck!(s.num_nodes() == m.nodes.len(), "num_nodes = {}, should be {}", s.num_nodes(), m.nodes.len());
    Ok(())
}

fn leaf(k: &K, v: &[u8]) -> LeafNode {
    LeafNode::new(kh(k), ValueHash::with::<Sha256>(v))
}
fn alphabet(th: bool) -> (Vec<Op>, Names) {
    let z = [0u8; 32];
    let ks = vec![set_nib(&z, 0, 2), [0xff; 32], set_nib(&set_nib(&z, 0, 2), 63, 1)];
    let (k0, k1, k2) = (ks[0], ks[1], ks[2]);
    let n = |v: Version, p: &[u8]| NodeKey::new(v, path(p));
    let (a, b) = (b"a".to_vec(), b"bb".to_vec());
    // an internal node as the library makes them
    let int = {
        let m: Map = [(k0, a.clone()), (k1, b.clone())].into_iter().collect();
        let w = build::<Sha256>(&m, 0).unwrap();
        w.store.raw_node(&root_key(0)).unwrap()
    };
    let stale = |v: Version, k: &NodeKey| StaleNodeIndex { stale_since_version: v, node_key: k.clone() };
    let (r0, r1, r2) = (n(0, &[]), n(1, &[]), n(2, &[]));
    let (c0, c1, c2) = (n(0, &[2]), n(0, &[15]), n(1, &[2, 0, 0]));
    let mut ops = vec![
        Op::PutLeaf(r0.clone(), leaf(&k0, &a), a.clone()),
        Op::PutLeaf(c0.clone(), leaf(&k0, &b), b.clone()),
        Op::PutLeaf(c1.clone(), leaf(&k1, &a), a.clone()),
        Op::PutLeaf(c2.clone(), leaf(&k2, &a), a.clone()),
        Op::PutLeaf(r2.clone(), leaf(&k0, &a), vec![]),
        Op::Batch(vec![(r0.clone(), int.clone())], vec![]),
        Op::Batch(vec![(c0.clone(), Node::Leaf(leaf(&k0, &a))), (c1.clone(), Node::Leaf(leaf(&k1, &b)))], vec![((0, k0), Some(a.clone())), ((0, k1), Some(b.clone()))]),
        Op::Batch(vec![(r1.clone(), Node::Null)], vec![((1, k0), None)]),
        Op::Batch(vec![], vec![((1, k0), Some(b.clone())), ((2, k0), None), ((2, k1), Some(vec![]))]),
        Op::Batch(vec![], vec![((0, k1), None)]),
        Op::Update(vec![(r1.clone(), int.clone())], vec![((1, k1), Some(a.clone()))], vec![stale(1, &r0)]),
        Op::Update(vec![(c2.clone(), Node::Leaf(leaf(&k2, &b)))], vec![((1, k2), Some(b.clone()))], vec![stale(1, &c0), stale(2, &c1)]),
        Op::Update(vec![(r2.clone(), Node::Leaf(leaf(&k1, &b)))], vec![((2, k1), Some(b.clone()))], vec![stale(2, &r1), stale(3, &r2)]),
        Op::Update(vec![], vec![], vec![stale(1, &r0)]),
        Op::Update(vec![], vec![], vec![stale(2, &c0)]),
        Op::Update(vec![], vec![], vec![]),
        Op::Preimage(k0, b"name".to_vec()),
        Op::Preimage(k0, b"".to_vec()),
        Op::Preimage(k1, b"other".to_vec()),
        Op::Purge(0),
        Op::Purge(1),
        Op::Purge(2),
        Op::Purge(u64::MAX),
    ];
    if th {
        ops.extend([
            Op::Batch(vec![(r0.clone(), Node::Null)], vec![((0, k2), Some(a.clone()))]),
            Op::Batch(vec![(r2.clone(), int)], vec![((2, k2), None), ((1, k2), Some(b))]),
            Op::Update(vec![(c1.clone(), Node::Leaf(leaf(&k2, &a)))], vec![], vec![stale(0, &r0)]),
            Op::Purge(3),
        ]);
    }
    let names = Names {
        nodes: vec![r0, r1, r2, c0, c1, c2, n(3, &[]), n(1, &[2])],
        keys: ks,
        versions: vec![0, 1, 2, 3, u64::MAX],
    };
    (ops, names)
}

fn explore(over: bool, ops: &[Op], names: &Names, seq: &mut Vec<usize>, m: &Model, left: usize, st: &mut Stats) -> R {
    for (i, op) in ops.iter().enumerate() {
        seq.push(i);
        let go = step(over, ops, names, seq, m, op, st)?;
        if let Some(m2) = go {
            if left > 1 {
                explore(over, ops, names, seq, &m2, left - 1, st)?;
            }
        }
        seq.pop();
    }
    Ok(())
}
/// Runs the sequence on a fresh store (its prefix was checked before) and compares after its last
/// operation. None if that was refused.
fn step(over: bool, ops: &[Op], names: &Names, seq: &[usize], m: &Model, op: &Op, st: &mut Stats) -> R<Option<Model>> {
    let s = MockTreeStore::new(over);
    let text = || format!("overwriting {}: {:?}", if over { "on" } else { "off" }, seq.iter().map(|i| &ops[*i]).collect::<Vec<_>>());
    for i in &seq[..seq.len() - 1] {
        real(&s, &ops[*i])?;
    }
    let mut m2 = m.clone();
    let want = m2.step(over, op);
    let got = real(&s, op);
    st.add("transitions", 1);
    st.add("traces", 1);
    match (want, got) {
        (Expect::Ok, Ok(())) => {}
        (Expect::Ok, Err(e)) => {
            detail(text);
            return Err(format!("the store refuses: {e}"));
        }
        (Expect::Refused, Ok(())) => {
            detail(text);
            return Err("the store accepts what it must refuse".into());
        }
        (Expect::Either, _) | (Expect::Refused, Err(_)) => {
            st.add("refusals", 1);
            return Ok(None);
        }
    }
    st.state(fp(&(over, m2.nodes.keys().map(|k| format!("{k:?}")).collect::<Vec<_>>(), &m2.values, m2.stale.len(), &m2.pre)));
    let r = compare(&s, &m2, names, st).and_then(|()| {
        if let Op::Purge(_) = op {
            // a purge can be repeated
            real(&s, op).map_err(|e| format!("repeating a purge fails: {e}"))?;
            compare(&s, &m2, names, st)?;
        }
        Ok(())
    });
    if r.is_err() {
        detail(text);
    }
    r.map(|()| Some(m2))
}

/// The write batch type against plain maps.
fn batches(ctx: &Ctx) {
    #[derive(Clone, Copy, Debug)]
    enum B {
        Node(usize, usize),
        Val(Version, usize, usize),
        Extend(usize),
        Merge(usize),
        Clear,
    }
    let z = [0u8; 32];
    let keys = [set_nib(&z, 0, 2), [0xff; 32]];
    let nks = [root_key(0), root_key(1), NodeKey::new(0, path(&[1]))];
    let nodes = [Node::Null, Node::Leaf(leaf(&keys[0], b"x")), Node::Leaf(leaf(&keys[1], b"y"))];
    let vals: [V; 2] = [vec![], b"v".to_vec()];
    let mut ops = vec![B::Clear];
    for i in 0..3 {
        for j in 0..2 {
            ops.push(B::Node(i, (i + j) % 3));
        }
    }
    for v in [0, 1] {
        for k in 0..2 {
            ops.push(B::Val(v, k, (k + v as usize) % 2));
        }
    }
    ops.extend([B::Extend(0), B::Extend(1), B::Extend(2), B::Merge(0), B::Merge(1), B::Merge(2)]);
    let extra = |i: usize| -> (Vec<(NodeKey, Node)>, Vec<((Version, KeyHash), Option<V>)>) {
        match i {
            0 => (vec![(nks[0].clone(), nodes[2].clone())], vec![((0, kh(&keys[0])), None)]),
            1 => (vec![], vec![((1, kh(&keys[0])), Some(b"z".to_vec())), ((0, kh(&keys[1])), Some(b"w".to_vec()))]),
            _ => (vec![(nks[2].clone(), nodes[0].clone()), (nks[1].clone(), nodes[0].clone())], vec![]),
        }
    };
    let n = ops.len();
    let depth = ctx.t(4, 5);
    ctx.family("write-batches", n.pow(2), |case, st| {
        for rest in 0..n.pow(depth - 2) {
            let mut x = case + rest * n * n;
            let mut b = NodeBatch::default();
            let mut mn: BTreeMap<NodeKey, Node> = BTreeMap::new();
            let mut mv: BTreeMap<(Version, KeyHash), Option<V>> = BTreeMap::new();
            for _ in 0..depth {
                let op = ops[x % n];
                x /= n;
                match op {
                    B::Node(k, v) => {
                        let old = b.insert_node(nks[k].clone(), nodes[v].clone());
                        ck!(old == mn.insert(nks[k].clone(), nodes[v].clone()), "insert_node returns {old:?}");
                    }
                    B::Val(ver, k, v) => {
                        b.insert_value(ver, kh(&keys[k]), vals[v].clone());
                        mv.insert((ver, kh(&keys[k])), Some(vals[v].clone()));
                    }
                    B::Extend(i) => {
                        let (en, ev) = extra(i);
                        b.extend(en.clone(), ev.clone());
                        mn.extend(en);
                        mv.extend(ev);
                    }
                    B::Merge(i) => {
                        let (en, ev) = extra(i);
                        b.merge(NodeBatch::new(en.iter().cloned().collect(), ev.iter().cloned().collect()));
                        mn.extend(en);
                        mv.extend(ev);
                    }
                    B::Clear => {
                        b.clear();
                        mn.clear();
                        mv.clear();
                    }
                }
                st.add("transitions", 1);
            }
            st.add("traces", 1);
            st.add("evaluations", 1);
            ck!(*b.nodes() == mn && *b.values() == mv, "write batch holds {b:?}, should hold {mn:?} and {mv:?}");
            ck!(b.is_empty() == (mn.is_empty() && mv.is_empty()), "is_empty of {b:?}");
            for k in &nks {
                ck!(b.get_node(k) == mn.get(k), "get_node({k:?}) of {b:?}");
            }
        }
        Ok(())
    });
}

/// A history run on the bundled store: reads at every readable version after every purge.
struct OnMock;
impl<H: SimpleHasher> Oracle<H> for OnMock {
    fn commit(&self, _w: &World<H>, _d: &Done<H>, _c: &Commit, _st: &mut Stats) -> R {
        Ok(())
    }
    fn end(&self, w: &World<H>, st: &mut Stats) -> R {
        let fill = || -> R<MockTreeStore> {
            let s = MockTreeStore::new(false);
            let mut at = w.first;
            for c in &w.hist {
                let tree = JellyfishMerkleTree::<MockTreeStore, H>::new(&s);
                let (_, b) = e2s("write", tree.put_value_sets(as_sets(&c.sets), at))?;
                e2s("write_tree_update_batch", s.write_tree_update_batch(b))?;
                at += c.sets.len() as u64;
            }
            Ok(s)
        };
        let check = |s: &MockTreeStore, from: Version, st: &mut Stats| -> R {
            let t = JellyfishMerkleTree::<MockTreeStore, H>::new(s);
            for v in from..w.next {
                ck!(e2s("root", t.get_root_hash(v))?.0 == *w.root_at(v), "root at {v}");
                for k in w.probes.iter() {
                    let got = e2s("get", t.get(kh(k), v))?;
                    ck!(got.as_ref() == w.at(v).get(k), "get({}, {v}) = {got:?} after purging up to {from}", kx(k));
                    let (got, _) = e2s("get_with_proof", t.get_with_proof(kh(k), v))?;
                    ck!(got.as_ref() == w.at(v).get(k), "get_with_proof({}, {v}) = {got:?}", kx(k));
                    st.add("evaluations", 2);
                }
            }
            Ok(())
        };
        if w.maps.is_empty() {
            return Ok(());
        }
        let s = fill()?;
        check(&s, w.first, st)?;
        ck!(s.num_nodes() == w.store.nodes.borrow().len(), "num_nodes");
        for v in w.versions() {
            // in sequence on one store, and directly on a fresh one
            e2s("purge", s.purge_stale_nodes(v))?;
            check(&s, v, st)?;
            let due = w.store.stale.borrow().iter().filter(|x| x.stale_since_version <= v).count();
            ck!(s.num_nodes() + due == w.store.nodes.borrow().len(), "{} nodes left after purging up to {v}", s.num_nodes());
            let f = fill()?;
            e2s("purge", f.purge_stale_nodes(v))?;
            e2s("purge again", f.purge_stale_nodes(v))?;
            check(&f, v, st)?;
            ck!(f.num_nodes() == s.num_nodes(), "purging at once leaves {} nodes, step by step {}", f.num_nodes(), s.num_nodes());
        }
        Ok(())
    }
}

pub fn c21(ctx: &Ctx) -> Info {
    let th = ctx.thorough();
    for over in [false, true] {
        let (ops, names) = alphabet(th);
        let n = ops.len();
        let depth = ctx.t(4, 5);
        ctx.family(if over { "operations-overwriting" } else { "operations" }, n * n, |i, st| {
            let m = Model::default();
            let mut seq = vec![i / n];
            let Some(m1) = step(over, &ops, &names, &seq, &m, &ops[i / n], st)? else { return Ok(()) };
            seq.push(i % n);
            let Some(m2) = step(over, &ops, &names, &seq, &m1, &ops[i % n], st)? else { return Ok(()) };
            explore(over, &ops, &names, &mut seq, &m2, depth - 2, st)
        });
    }
    batches(ctx);
    let us = universes();
    for (u, ops, d) in [("near", 1, 3), ("near", 2, 2), ("chain", 1, 3), ("mixed5", 1, ctx.t(2, 3))] {
        let u = us.iter().find(|x| x.name == u).unwrap();
        run_dfs::<Sha256>(ctx, &Dfs::new(u.name, &u.keys, ops, if th && u.keys.len() < 4 { d + 1 } else { d }, 0, How::Sets), &OnMock);
    }
    ctx.sample(|| format!("{:?}", alphabet(th).0));
    mc("every sequence of store operations to the stated depth, with overwriting on and off; every sequence of write-batch operations; every short history of commits run on the store and purged at every version")
}
