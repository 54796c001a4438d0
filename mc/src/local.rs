//! C25: reads and commits touch only the nodes along the keys they concern. C26: write batches
//! combine as maps.
use crate::basic::*;
use crate::faults::*;
use crate::shapes::*;
use crate::spec::*;
use crate::store::*;
use crate::util::*;
use crate::world::*;
use crate::{ck, mc, Info};
use jmt::mock::MockTreeStore;
use jmt::storage::*;
use jmt::{JellyfishMerkleIterator, SimpleHasher, Version};
use sha2::Sha256;
use std::cell::RefCell;
use std::collections::{BTreeMap, BTreeSet};
use std::rc::Rc;

// ---------------------------------------------------------------- C25
/// Runs `f` and lists the storage accesses it makes.
fn traced<T>(s: &MemStore, f: impl FnOnce() -> T) -> (T, Vec<Call>) {
    let log = Rc::new(RefCell::new(vec![]));
    let l2 = log.clone();
    s.set_hook(Some(Box::new(move |_, c| {
        l2.borrow_mut().push(c.clone());
        Ok(())
    })));
    let r = f();
    s.set_hook(None);
    let l = log.borrow().clone();
    (r, l)
}
fn nibs(p: &NibblePath) -> Vec<u8> {
    p.nibbles().map(u8::from).collect()
}
fn on(path: &[u8], k: &K) -> bool {
    path.iter().enumerate().all(|(i, n)| nib(k, i) == *n)
}
/// On the path of one of the keys, or a child of a node that is.
fn by(path: &[u8], ks: &[K]) -> bool {
    let p = &path[..path.len().saturating_sub(1)];
    ks.iter().any(|k| on(p, k))
}
fn on_any(path: &[u8], ks: &[K]) -> bool {
    ks.iter().any(|k| on(path, k))
}
/// How often one record may be read in one operation. Reading it once is enough; some slack is
/// left for implementations that look twice.
const TIMES: usize = 8;

pub struct C25;
/// Checks the accesses of a read at version `v` whose tree has the nodes `tree`: they are nodes of
/// that very tree that satisfy `may`, and values of the keys `vals`.
fn judge(what: &str, calls: &[Call], tree: &BTreeSet<NodeKey>, may: impl Fn(&[u8]) -> bool, vals: &BTreeSet<K>, v: Version) -> R {
    let mut n: BTreeMap<String, usize> = BTreeMap::new();
    for c in calls {
        *n.entry(format!("{c:?}")).or_default() += 1;
        match c {
            Call::Node(k) => {
                ck!(k.version() <= v, "{what} at version {v} reads the later node {k:?}");
                let p = nibs(k.nibble_path());
                ck!(tree.contains(k) || p.is_empty(), "{what} at version {v} asks for {k:?}, which that version does not have");
                ck!(may(&p), "{what} at version {v} reads {k:?}, which does not concern it");
            }
            Call::Value(ver, k) => {
                ck!(*ver <= v, "{what} at version {v} reads a value at {ver}");
                ck!(vals.contains(k), "{what} at version {v} reads the value of {}", kx(k));
            }
            Call::Rightmost => return Err(format!("{what} asks for the rightmost leaf")),
            Call::Write => return Err(format!("{what} writes")),
            Call::Preimage(_) => {}
        }
    }
    for (c, n) in n {
        ck!(n <= TIMES, "{what} at version {v} makes the access {c} {n} times");
    }
    Ok(())
}
impl C25 {
    fn reads<H: SimpleHasher + std::fmt::Debug>(w: &World<H>, v: Version, nk: usize, st: &mut Stats) -> R {
        let (tree, _) = walk::<H>(&w.store, v)?;
        let m = w.at(v);
        let run = |op: &Op| -> R<Vec<Call>> {
            let (r, c) = traced(&w.store, || run_op::<H>(&w.store, v, op));
            if let Err(e) = r {
                return Err(format!("{op:?} at {v} failed: {e:#}"));
            }
            Ok(c)
        };
        let set = |k: &[K]| -> BTreeSet<K> { k.iter().copied().collect() };
        for op in [Op::Root, Op::RootOpt, Op::Leaves] {
            judge(&format!("{op:?}"), &run(&op)?, &tree, |p| p.is_empty(), &set(&[]), v)?;
        }
        for k in w.probes.iter().take(nk) {
            let what = |s: &str| format!("{s} of {}", kx(k));
            judge(&what("get"), &run(&Op::Get(*k))?, &tree, |p| by(p, &[*k]), &set(&[*k]), v)?;
            judge(&what("get_with_proof"), &run(&Op::Proof(*k))?, &tree, |p| by(p, &[*k]), &set(&[*k]), v)?;
            if m.contains_key(k) {
                judge(&what("get_range_proof"), &run(&Op::Range(*k))?, &tree, |p| by(p, &[*k]), &set(&[*k]), v)?;
            }
            let left = m.range::<K, _>(..k).next_back().map(|x| *x.0);
            let right = m.range::<K, _>(k..).next().map(|x| *x.0);
            let mut ks = vec![*k];
            ks.extend(left);
            ks.extend(right);
            if !m.is_empty() {
                judge(&what("get_with_exclusion_proof"), &run(&Op::Excl(*k))?, &tree, |p| by(p, &ks), &set(&ks), v)?;
            }
            // the first pair from a key on, without the rest
            let (r, c) = traced(&w.store, || JellyfishMerkleIterator::new(w.store.clone(), v, kh(k)).map(|mut i| i.next().is_some()));
            ck!(e2s("iterator", r)? == right.is_some(), "iteration from {} finds a first pair or none wrongly", kx(k));
            let mut ks = vec![*k];
            ks.extend(right);
            // the child that ends the path of the starting key may be looked at before it is passed by
            judge(&what("starting an iteration"), &c, &tree, |p| by(p, &ks), &set(&right.map_or(vec![], |r| vec![r])), v)?;
            st.add("evaluations", 5);
        }
        let all: Vec<K> = m.keys().copied().collect();
        for i in [0, all.len() / 2, all.len().saturating_sub(1)] {
            let Some(k) = all.get(i) else { continue };
            let (r, c) = traced(&w.store, || JellyfishMerkleIterator::new_by_index(w.store.clone(), v, i).map(|mut i| i.next().is_some()));
            ck!(e2s("iterator", r)?, "iteration from index {i} finds nothing");
            judge(&format!("starting an iteration at index {i}"), &c, &tree, |p| by(p, &[*k]), &set(&[*k]), v)?;
        }
        // a whole iteration reads the tree once, a part of it only its part
        let c = run(&Op::Iter([0; 32]))?;
        judge("iteration", &c, &tree, |_| true, &set(&all), v)?;
        if let Some(k) = all.get(all.len() / 2) {
            let c = run(&Op::Iter(*k))?;
            let rest = &all[all.len() / 2..];
            judge(&format!("iteration from {}", kx(k)), &c, &tree, |p| on_any(p, rest), &set(rest), v)?;
        }
        st.add("evaluations", 8);
        Ok(())
    }
}
impl<H: SimpleHasher + std::fmt::Debug> Oracle<H> for C25 {
    fn commit(&self, w: &World<H>, d: &Done<H>, c: &Commit, st: &mut Stats) -> R {
        let touched: Vec<Vec<K>> = c.sets.iter().map(|u| u.iter().map(|x| x.0).collect()).collect();
        // what is written
        for b in &d.batches {
            for (k, n) in b.node_batch.nodes() {
                let p = nibs(k.nibble_path());
                ck!(k.version() >= d.first && k.version() < w.next, "version {} writes the node {k:?}", d.first);
                let ks = &touched[(k.version() - d.first) as usize];
                ck!(p.is_empty() || by(&p, ks), "version {} rewrites {k:?}, which none of its updates concerns", k.version());
                ck!(on_any(&p, ks) || p.is_empty() || matches!(n, Node::Leaf(_)), "version {} rewrites the subtree {k:?}, which none of its updates concerns", k.version());
            }
            for (v, k) in b.node_batch.values().keys() {
                ck!(*v >= d.first && *v < w.next, "version {} writes a value at {v}", d.first);
                ck!(touched[(*v - d.first) as usize].contains(&k.0), "version {v} writes a value of {}, which it does not update", kx(&k.0));
            }
            for s in &b.stale_node_index_batch {
                let v = s.stale_since_version;
                ck!(v >= d.first && v < w.next, "version {} retires a node since {v}", d.first);
                let ks = &touched[(v - d.first) as usize];
                let p = nibs(s.node_key.nibble_path());
                ck!(p.is_empty() || by(&p, ks), "version {v} retires {:?}, which none of its updates concerns", s.node_key);
            }
            st.add("evaluations", 1);
        }
        // what is read for it
        let keys: Vec<K> = touched.iter().flatten().copied().collect();
        let ks: BTreeSet<K> = keys.iter().copied().collect();
        if d.batches.len() == 1 {
            let calls = w.before(d, || -> R<Vec<Call>> {
                let (r, calls) = traced(&w.store, || compute::<H>(&w.store, &c.sets, c.how, d.first));
                e2s("write", r)?;
                Ok(calls)
            })?;
            let tree = match d.first.checked_sub(1) {
                Some(v) if v >= w.first => walk::<H>(&w.store, v)?.0,
                _ => BTreeSet::new(),
            };
            let mut n: BTreeMap<String, usize> = BTreeMap::new();
            for x in &calls {
                *n.entry(format!("{x:?}")).or_default() += 1;
                match x {
                    Call::Node(k) => {
                        let p = nibs(k.nibble_path());
                        ck!(p.is_empty() || by(&p, &keys), "a commit of version {} reads {k:?}, which none of its updates concerns", d.first);
                        ck!(p.is_empty() || tree.contains(k) || k.version() >= d.first, "a commit of version {} reads {k:?}, which is not in the version before it", d.first);
                    }
                    Call::Value(_, k) => ck!(ks.contains(k), "a commit of version {} reads the value of {}", d.first, kx(k)),
                    Call::Rightmost | Call::Write => return Err(format!("a write makes the access {x:?}")),
                    Call::Preimage(_) => {}
                }
            }
            let ups = keys.len() + c.sets.len();
            for (x, n) in n {
                ck!(n <= TIMES * ups, "a commit of {ups} updates makes the access {x} {n} times");
            }
            st.add("evaluations", 1);
        }
        for v in new_versions(d) {
            C25::reads(w, v, 10, st)?;
        }
        Ok(())
    }
    fn end(&self, w: &World<H>, st: &mut Stats) -> R {
        let n = w.maps.len() as u64;
        for v in w.versions() {
            if n <= 12 || v % 9 == 0 {
                C25::reads(w, v, 3, st)?;
            }
        }
        Ok(())
    }
}
pub fn c25(ctx: &Ctx) -> Info {
    common::<Mix>(ctx, &C25, Load::Heavy, How::Sets);
    let us = universes();
    run_dfs::<Sha256>(ctx, &Dfs::new("six", &us[6].keys, 1, 3, 0, How::OneProof), &C25);
    run_dfs::<Mix>(ctx, &Dfs::new("near", &us[0].keys, 2, 2, 0, How::Proofs), &C25);
    bulk_shapes::<Mix>(ctx, &C25);
    grouped_how::<Mix>(ctx, &C25, 1, How::Sets);
    huge::<Mix>(ctx, &C25);
    mc("after every commit of every explored history its batch and the storage accesses made for it, and the accesses of every kind of read, are compared with the paths of the keys concerned")
}

// ---------------------------------------------------------------- C26
#[derive(Clone, Debug)]
enum BOp {
    Node(usize, usize),
    Val(usize, u8),
    /// extend by node, value (or deletion)
    Ext(Vec<(usize, usize)>, Vec<(usize, Option<u8>)>),
    Merge(Vec<(usize, usize)>, Vec<(usize, Option<u8>)>),
    MergeInto(Vec<(usize, usize)>, Vec<(usize, Option<u8>)>),
    Clear,
}
type Vals = BTreeMap<(Version, K), Option<V>>;
type Nodes = BTreeMap<NodeKey, Node>;
struct Parts {
    nks: Vec<NodeKey>,
    nodes: Vec<Node>,
    vks: Vec<(Version, K)>,
}
impl Parts {
    fn nodes(&self, x: &[(usize, usize)]) -> Vec<(NodeKey, Node)> {
        x.iter().map(|(k, n)| (self.nks[*k].clone(), self.nodes[*n].clone())).collect()
    }
    fn vals(&self, x: &[(usize, Option<u8>)]) -> Vec<((Version, jmt::KeyHash), Option<V>)> {
        x.iter().map(|(k, v)| ((self.vks[*k].0, kh(&self.vks[*k].1)), v.map(|v| vec![v]))).collect()
    }
    fn batch(&self, n: &[(usize, usize)], v: &[(usize, Option<u8>)]) -> NodeBatch {
        NodeBatch::new(self.nodes(n).into_iter().collect(), self.vals(v).into_iter().collect())
    }
}
fn step(p: &Parts, b: &mut NodeBatch, nodes: &mut Nodes, vals: &mut Vals, op: &BOp) -> R {
    let put = |nodes: &mut Nodes, vals: &mut Vals, n: &[(usize, usize)], v: &[(usize, Option<u8>)]| {
        nodes.extend(p.nodes(n));
        vals.extend(p.vals(v).into_iter().map(|((ver, k), v)| ((ver, k.0), v)));
    };
    match op {
        BOp::Node(k, n) => {
            let old = b.insert_node(p.nks[*k].clone(), p.nodes[*n].clone());
            let want = nodes.insert(p.nks[*k].clone(), p.nodes[*n].clone());
            ck!(old == want, "insert_node returns {old:?} instead of {want:?}");
        }
        BOp::Val(k, v) => {
            b.insert_value(p.vks[*k].0, kh(&p.vks[*k].1), vec![*v]);
            put(nodes, vals, &[], &[(*k, Some(*v))]);
        }
        BOp::Ext(n, v) => {
            b.extend(p.nodes(n), p.vals(v));
            put(nodes, vals, n, v);
        }
        BOp::Merge(n, v) => {
            b.merge(p.batch(n, v));
            put(nodes, vals, n, v);
        }
        BOp::MergeInto(n, v) => {
            // the other way round: what we have wins
            let mut o = p.batch(n, v);
            o.merge(std::mem::take(b));
            *b = o;
            let (n0, v0) = (std::mem::take(nodes), std::mem::take(vals));
            put(nodes, vals, n, v);
            nodes.extend(n0);
            vals.extend(v0);
        }
        BOp::Clear => {
            b.clear();
            nodes.clear();
            vals.clear();
        }
    }
    Ok(())
}
fn same(p: &Parts, b: &NodeBatch, nodes: &Nodes, vals: &Vals) -> R {
    ck!(b.nodes() == nodes, "the batch holds the nodes {:?} instead of {nodes:?}", b.nodes());
    let v: Vals = b.values().iter().map(|((ver, k), v)| ((*ver, k.0), v.clone())).collect();
    ck!(v == *vals && b.values().len() == vals.len(), "the batch holds the values {v:?} instead of {vals:?}");
    for k in &p.nks {
        ck!(b.get_node(k) == nodes.get(k), "get_node({k:?}) is wrong");
    }
    ck!(b.is_empty() == (nodes.is_empty() && vals.is_empty()), "is_empty() is wrong");
    let again = NodeBatch::new(nodes.clone(), b.values().clone());
    ck!(again == *b, "the batch differs from a new one of the same contents");
    ck!((*b == NodeBatch::default()) == b.is_empty(), "the batch is or is not equal to the empty one");
    Ok(())
}
pub fn c26(ctx: &Ctx) -> Info {
    let th = ctx.thorough();
    let parts = || {
        let leaf = |i: u8| Node::Leaf(LeafNode::new(kh(&[i; 32]), jmt::ValueHash::with::<Sha256>([i])));
        Parts {
            nks: vec![root_key(0), root_key(1), NodeKey::new(1, crate::codec::path(&[3]))],
            nodes: vec![Node::Null, leaf(1), leaf(2)],
            vks: vec![(0, [1; 32]), (1, [1; 32]), (0, [2; 32])],
        }
    };
    let mut ops = vec![BOp::Clear];
    for k in 0..3 {
        for n in 0..2 {
            ops.push(BOp::Node(k, n + (k + n) % 2));
        }
        for v in 0..2 {
            ops.push(BOp::Val(k, v));
        }
        ops.push(BOp::Ext(vec![], vec![(k, None)]));
        ops.push(BOp::Ext(vec![(k, 2)], vec![(k, Some(7)), (k, None), ((k + 1) % 3, Some(8))]));
        ops.push(BOp::Merge(vec![(k, k)], vec![(k, None)]));
        ops.push(BOp::MergeInto(vec![(k, 1), ((k + 1) % 3, 0)], vec![(k, Some(3))]));
    }
    ops.push(BOp::Merge(vec![], vec![]));
    ops.push(BOp::MergeInto(vec![], vec![]));
    ops.push(BOp::Ext(vec![], vec![]));
    let n = ops.len();
    let depth = if th { 6 } else { 5 };
    ctx.family("operations", n * n, |i, st| {
        let p = parts();
        fn rec(p: &Parts, ops: &[BOp], b: &NodeBatch, nodes: &Nodes, vals: &Vals, left: usize, st: &mut Stats) -> R {
            if left == 0 {
                st.add("traces", 1);
                return Ok(());
            }
            for op in ops {
                let (mut b, mut nodes, mut vals) = (b.clone(), nodes.clone(), vals.clone());
                step(p, &mut b, &mut nodes, &mut vals, op)?;
                st.add("transitions", 1);
                st.add("evaluations", 1);
                st.state(fp(&format!("{nodes:?}{vals:?}")));
                same(p, &b, &nodes, &vals).map_err(|e| format!("{e} (last operation: {op:?})"))?;
                rec(p, ops, &b, &nodes, &vals, left - 1, st)?;
            }
            Ok(())
        }
        let (mut b, mut nodes, mut vals) = (NodeBatch::default(), Nodes::new(), Vals::new());
        for op in [&ops[i / n], &ops[i % n]] {
            step(&p, &mut b, &mut nodes, &mut vals, op)?;
            same(&p, &b, &nodes, &vals).map_err(|e| format!("{e} (last operation: {op:?})"))?;
            st.add("transitions", 1);
        }
        rec(&p, &ops, &b, &nodes, &vals, depth - 2, st)
    });
    // commits merged into one batch and written at once
    common_light::<Mix>(ctx, &Merged);
    mc("every sequence of batch operations to the stated depth against a pair of maps; every history written commit by commit, as one merged batch, and merged in every association")
}
fn common_light<H: SimpleHasher + std::fmt::Debug>(ctx: &Ctx, o: &impl Oracle<H>) {
    let us = universes();
    let th = ctx.thorough();
    for (u, d) in [(0, 3), (1, 3), (2, 3), (4, 3)] {
        run_dfs::<H>(ctx, &Dfs::new(us[u].name, &us[u].keys[..3], 1, d + th as usize, 0, How::Sets), o);
    }
    run_dfs::<H>(ctx, &Dfs::new("near", &us[0].keys, 2, 2, 0, How::Sets), o);
    shapes_all::<H>(ctx, o, Load::Heavy, How::Sets);
}
struct Merged;
impl<H: SimpleHasher + std::fmt::Debug> Oracle<H> for Merged {
    fn commit(&self, _w: &World<H>, _d: &Done<H>, _c: &Commit, _st: &mut Stats) -> R {
        Ok(())
    }
    fn end(&self, w: &World<H>, st: &mut Stats) -> R {
        // the batches again
        let mut parts: Vec<NodeBatch> = vec![];
        let s = MemStore::default();
        let mut v = w.first;
        for c in &w.hist {
            let (_, b, _) = e2s("write", compute::<H>(&s, &c.sets, c.how, v))?;
            s.apply_overwrite(&b);
            parts.push(b.node_batch);
            v += c.sets.len() as u64;
        }
        if parts.len() > 24 {
            return Ok(());
        }
        let dump = |s: &MockTreeStore| -> R<Vec<u64>> {
            let mut out = vec![];
            for p in &parts {
                for k in p.nodes().keys() {
                    out.push(fp(&format!("{:?}", e2s("get_node_option", s.get_node_option(k))?)));
                }
                for (v, k) in p.values().keys() {
                    out.push(fp(&format!("{:?}", e2s("get_value_option", s.get_value_option(*v, *k))?)));
                }
            }
            out.push(s.num_nodes() as u64);
            Ok(out)
        };
        let one_by_one = MockTreeStore::new(false);
        for p in &parts {
            e2s("write_node_batch", one_by_one.write_node_batch(p))?;
        }
        let want = dump(&one_by_one)?;
        // left fold, right fold, and every split into two parts
        let fold = |ps: &[NodeBatch]| {
            let mut b = NodeBatch::default();
            for p in ps {
                b.merge(p.clone());
            }
            b
        };
        let all = fold(&parts);
        let mut right = NodeBatch::default();
        for p in parts.iter().rev() {
            let mut x = p.clone();
            x.merge(right);
            right = x;
        }
        ck!(all == right, "merging batches is not associative");
        for cut in 0..=parts.len() {
            let (a, b) = (fold(&parts[..cut]), fold(&parts[cut..]));
            let s = MockTreeStore::new(false);
            e2s("write_node_batch", s.write_node_batch(&a))?;
            e2s("write_node_batch", s.write_node_batch(&b))?;
            ck!(dump(&s)? == want, "merged batches (the first {cut}, the rest) store something else than the single ones");
            let mut ab = a;
            ab.merge(b);
            ck!(ab == all, "merging batches is not associative");
            st.add("evaluations", 2);
        }
        // and merged, they are answered from as usual
        let f = w.fork();
        f.store.nodes.borrow_mut().clear();
        f.store.values.borrow_mut().clear();
        e2s("write_node_batch", f.store.write_node_batch(&all))?;
        for v in w.versions() {
            let (a, b) = (observe::<H>(&w.store, v, &w.probes)?, observe::<H>(&f.store, v, &w.probes)?);
            ck!(a == b, "version {v} is answered differently after its history was written as one merged batch");
            st.add("evaluations", 1);
        }
        Ok(())
    }
}
