//! C28: threads sharing one in-memory store.
use crate::util::*;
use crate::{ck, mc, Info};
use anyhow::Result;
use jmt::mock::MockTreeStore;
use jmt::restore::{JellyfishMerkleRestore, StateSnapshotReceiver};
use jmt::storage::*;
use jmt::*;
use parking_lot::sched;
use sha2::Sha256;
use std::collections::{BTreeMap, HashMap};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::Arc;

/// Explores all schedules, or those with up to `bound` preemptions. Where that would take too long
/// (a store that takes its lock more often than the present one), those with fewer preemptions.
fn explore<S: Sync + 'static, T: Send>(
    th: bool,
    bound: Option<usize>,
    st: &mut Stats,
    make: impl Fn() -> S,
    bodies: &[&(dyn Fn(&S) -> T + Sync)],
    mut each: impl FnMut(&S, Vec<Option<T>>, bool, &[u8]) -> R,
) -> R {
    let budget = if th { 20_000_000 } else { 1_000_000 };
    for b in [bound, Some(2), Some(1)] {
        let last = b == Some(1);
        let ex = sched::explore(b, if last { u64::MAX } else { budget }, &make, bodies, |s, r, dead, trace| {
            st.add("traces", 1);
            st.add("evaluations", 1);
            each(s, r, dead, trace)
        })?;
        st.add("transitions", ex.acquisitions);
        st.add("schedules left out as equivalent", ex.redundant);
        st.add("unstable programs", ex.unstable as u64);
        if !ex.cut {
            break;
        }
        st.add("programs explored with fewer preemptions", 1);
    }
    Ok(())
}

type Set = Vec<(KeyHash, Option<OwnedValue>)>;
fn key(b: u8, c: u8) -> KeyHash {
    let mut k = [0x11u8; 32];
    k[0] = b;
    k[1] = c;
    KeyHash(k)
}
/// The keys: three under one slot of the root, of which two under one slot below, and two more.
fn keys() -> [KeyHash; 5] {
    [key(0x20, 0), key(0x20, 0x10), key(0x2f, 0), key(0x90, 0), key(0xf0, 0)]
}
fn v(b: u8) -> Option<OwnedValue> {
    Some(vec![b])
}

/// A history: the batches of versions 0.. and what each version holds.
struct Hist {
    sets: Vec<Set>,
    batches: Vec<TreeUpdateBatch>,
    roots: Vec<RootHash>,
    maps: Vec<BTreeMap<KeyHash, OwnedValue>>,
}
fn hist(sets: Vec<Set>) -> Hist {
    let store = MockTreeStore::new(false);
    let mut h = Hist { sets: sets.clone(), batches: vec![], roots: vec![], maps: vec![] };
    let mut m = BTreeMap::new();
    for (i, s) in sets.into_iter().enumerate() {
        for (k, x) in &s {
            match x {
                Some(x) => m.insert(*k, x.clone()),
                None => m.remove(k),
            };
        }
        let (root, b) = Sha256Jmt::new(&store).put_value_set(s, i as u64).expect("a commit");
        store.write_tree_update_batch(b.clone()).expect("a write");
        h.batches.push(b);
        h.roots.push(root);
        h.maps.push(m.clone());
    }
    h
}
impl Hist {
    /// A store holding the first `n` versions.
    fn store(&self, n: usize, overwrite: bool) -> MockTreeStore {
        let s = MockTreeStore::new(overwrite);
        for b in &self.batches[..n] {
            s.write_tree_update_batch(b.clone()).expect("a write");
        }
        s
    }
}
fn hists() -> Vec<Hist> {
    let k = keys();
    vec![
        hist(vec![
            vec![(k[0], v(1)), (k[2], v(2)), (k[3], v(3))],
            vec![(k[0], v(4)), (k[3], None)],
            vec![(k[4], v(5)), (k[0], v(6))],
        ]),
        hist(vec![vec![(k[0], v(1))], vec![(k[0], None)], vec![(k[1], v(2))]]),
        hist(vec![vec![(k[0], v(1)), (k[1], v(2))], vec![(k[3], v(3))], vec![(k[1], None)]]),
        hist(vec![vec![(k[4], v(1)), (k[3], v(2))], vec![], vec![(k[4], None), (k[3], None)]]),
    ]
}

/// One with many nodes in every batch.
fn wide(n: usize) -> Hist {
    let at = |i: usize, c: u8| key((i * 7 % 256) as u8, (i / 256) as u8 * 16 + c);
    let k = keys();
    let mut sets: Vec<Set> = vec![vec![(k[0], v(1)), (k[2], v(2)), (k[3], v(3))], vec![(k[0], v(4)), (k[3], None)], vec![(k[4], v(5)), (k[0], v(6))]];
    for i in 0..n {
        sets[0].push((at(i, 1), v(1)));
        if i % 2 == 0 {
            sets[1].push((at(i, 1), v(2)));
        }
        sets[2].push((at(i, 2), v(3)));
        if i % 3 == 0 {
            sets[2].push((at(i, 1), if i % 2 == 0 { None } else { v(4) }));
        }
    }
    hist(sets)
}

// ------------------------------------------------------------ single calls
#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Node(usize),
    Value(Version, usize),
    Rightmost,
    Count,
    Preimage(usize),
    Write(usize),
    Update(usize),
    Purge(Version),
    PutLeaf(u8),
    PutPreimage(u8),
}
/// What is executed at once: a call, or one of the parts a call that isn't atomic consists of.
#[derive(Clone, Copy, Debug, PartialEq)]
enum Part {
    Call(Op),
    Stale(usize, usize),
}
struct Setting {
    /// What the store holds at first.
    base: Vec<TreeUpdateBatch>,
    /// Batches to write.
    batches: Vec<TreeUpdateBatch>,
    /// Nodes to look at.
    nodes: Vec<NodeKey>,
    overwrite: bool,
    /// The key of the root of a later version.
    free: NodeKey,
}
impl Setting {
    fn new(h: &Hist, overwrite: bool) -> Self {
        // another commit of the last version
        let before = h.store(2, false);
        let (_, other) = Sha256Jmt::new(&before).put_value_set(vec![(keys()[2], v(9))], 2).expect("a commit");
        let batches = vec![h.batches[2].clone(), other];
        let mut nodes: Vec<NodeKey> = vec![];
        for b in h.batches.iter().chain(&batches) {
            nodes.extend(b.node_batch.nodes().keys().cloned());
        }
        nodes.sort();
        nodes.dedup();
        let later = hist(vec![vec![(keys()[0], v(1))]; 8]);
        let free = later.batches[7].node_batch.nodes().keys().next().expect("a root").clone();
        Setting { free, base: h.batches[..2].to_vec(), batches, nodes, overwrite }
    }
    fn store(&self) -> MockTreeStore {
        let s = MockTreeStore::new(self.overwrite);
        for b in &self.base {
            s.write_tree_update_batch(b.clone()).expect("a write");
        }
        s
    }
    fn leaf(&self, b: u8) -> (NodeKey, LeafNode, Vec<u8>) {
        // a place of its own: the leaf of the second key as the root of version 7
        (self.free.clone(), LeafNode::new(keys()[1], ValueHash::with::<Sha256>(vec![b])), vec![b])
    }
    fn stale(&self, b: usize) -> Vec<StaleNodeIndex> {
        self.batches[b].stale_node_index_batch.iter().cloned().collect()
    }
    fn part(&self, s: &MockTreeStore, p: Part) -> String {
        match p {
            Part::Call(o) => self.call(s, o),
            Part::Stale(b, i) => {
                let one = TreeUpdateBatch {
                    stale_node_index_batch: [self.stale(b)[i].clone()].into(),
                    ..Default::default()
                };
                said(|| s.write_tree_update_batch(one))
            }
        }
    }
    fn call(&self, s: &MockTreeStore, o: Op) -> String {
        match o {
            Op::Node(i) => said(|| s.get_node_option(&self.nodes[i % self.nodes.len()])),
            Op::Value(v, k) => said(|| s.get_value_option(v, keys()[k])),
            // several versions' leaves of one key tie
            Op::Rightmost => said(|| Ok(s.get_rightmost_leaf()?.map(|(_, l)| l.key_hash()))),
            Op::Count => said(|| Ok(s.num_nodes())),
            Op::Preimage(k) => said(|| s.preimage(keys()[k])),
            Op::Write(b) => said(|| s.write_node_batch(&self.batches[b].node_batch)),
            Op::Update(b) => said(|| s.write_tree_update_batch(self.batches[b].clone())),
            Op::Purge(v) => said(|| s.purge_stale_nodes(v)),
            Op::PutLeaf(b) => {
                let (k, l, x) = self.leaf(b);
                said(|| s.put_leaf(k, l, x))
            }
            Op::PutPreimage(b) => said(|| Ok(s.put_key_preimage(keys()[0], &vec![b]))),
        }
    }
    /// Everything there is to see of a store.
    fn look(&self, s: &MockTreeStore) -> String {
        let mut t = String::new();
        for n in &self.nodes {
            t += if s.get_node_option(n).ok().flatten().is_some() { "1" } else { "0" };
        }
        t += &said(|| s.get_node_option(&self.leaf(0).0));
        for k in 0..5 {
            for v in [0, 1, 2, 7, Version::MAX] {
                t += &self.call(s, Op::Value(v, k));
            }
        }
        t += &self.call(s, Op::Rightmost);
        t += &self.call(s, Op::Count);
        t += &self.call(s, Op::Preimage(0));
        // which stale records there are
        for v in [0, 1, 2, Version::MAX] {
            t += &self.call(s, Op::Purge(v));
            t += &self.call(s, Op::Count);
        }
        t
    }
    fn parts(&self, o: Op) -> Vec<Part> {
        match o {
            Op::Update(b) => {
                let mut p = vec![Part::Call(Op::Write(b))];
                p.extend((0..self.stale(b).len()).map(|i| Part::Stale(b, i)));
                p
            }
            o => vec![Part::Call(o)],
        }
    }
}
/// The outcome of a call; the wording of errors doesn't count.
fn said<T: std::fmt::Debug>(f: impl FnOnce() -> Result<T>) -> String {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(Ok(x)) => format!("{x:?};"),
        Ok(Err(_)) => "error;".into(),
        Err(e) if e.downcast_ref::<&str>() == Some(&"deadlock") => std::panic::resume_unwind(e),
        Err(_) => "panic;".into(),
    }
}
/// The outcomes that the calls can have one after the other: for each, the orders (of threads, by
/// parts) that lead to it.
fn serial(s: &Setting, prog: &[Vec<Op>], st: &mut Stats) -> HashMap<String, Vec<Vec<u8>>> {
    let flat: Vec<Vec<(usize, Part)>> = prog
        .iter()
        .map(|ops| ops.iter().enumerate().flat_map(|(i, o)| s.parts(*o).into_iter().map(move |p| (i, p))).collect())
        .collect();
    let mut out: HashMap<String, Vec<Vec<u8>>> = HashMap::new();
    let mut order: Vec<u8> = vec![];
    fn orders(left: &mut Vec<usize>, order: &mut Vec<u8>, f: &mut impl FnMut(&[u8])) {
        if left.iter().all(|n| *n == 0) {
            return f(order);
        }
        for t in 0..left.len() {
            if left[t] > 0 {
                left[t] -= 1;
                order.push(t as u8);
                orders(left, order, f);
                order.pop();
                left[t] += 1;
            }
        }
    }
    let mut left: Vec<usize> = flat.iter().map(|p| p.len()).collect();
    orders(&mut left, &mut order, &mut |order| {
        let store = s.store();
        let mut at = vec![0; prog.len()];
        let mut said: Vec<Vec<String>> = prog.iter().map(|ops| vec![String::new(); ops.len()]).collect();
        for t in order {
            let t = *t as usize;
            let (i, p) = flat[t][at[t]];
            at[t] += 1;
            let r = &mut said[t][i];
            // a call that failed does nothing more
            if !matches!(r.as_str(), "error;" | "panic;") {
                *r = s.part(&store, p);
            }
        }
        st.add("serial executions", 1);
        out.entry(format!("{said:?}{}", s.look(&store))).or_default().push(order.to_vec());
    });
    out
}

/// Every schedule of a program has the outcome of its calls in some order that respects which of
/// them were over before others began.
fn atomic(th: bool, s: &Setting, prog: &[Vec<Op>], st: &mut Stats) -> R {
    detail(|| format!("threads {prog:?} on a store of two versions, overwriting {}", s.overwrite));
    let want = serial(s, prog, st);
    // the thread and call of every part, by thread
    let owner: Vec<Vec<usize>> = prog
        .iter()
        .map(|ops| ops.iter().enumerate().flat_map(|(i, o)| s.parts(*o).into_iter().map(move |_| i)).collect())
        .collect();
    type Out = Vec<(String, usize, usize)>;
    let bodies: Vec<Box<dyn Fn(&MockTreeStore) -> Out + Sync>> = prog
        .iter()
        .map(|ops| {
            let f = move |store: &MockTreeStore| {
                ops.iter()
                    .map(|o| {
                        let a = sched::now();
                        let r = s.call(store, *o);
                        (r, a, sched::now())
                    })
                    .collect::<Out>()
            };
            Box::new(f) as Box<dyn Fn(&MockTreeStore) -> Out + Sync>
        })
        .collect();
    let refs: Vec<&(dyn Fn(&MockTreeStore) -> Out + Sync)> = bodies.iter().map(|b| &**b).collect();
    explore(
        th,
        None,
        st,
        || s.store(),
        &refs,
        |store, results, dead, trace| {
            ck!(!dead, "the threads wait for each other forever (schedule {trace:?})");
            let results: Vec<Out> = results.into_iter().map(|r| r.expect("a thread's result")).collect();
            let said: Vec<Vec<&String>> = results.iter().map(|r| r.iter().map(|x| &x.0).collect()).collect();
            let got = format!("{said:?}{}", s.look(store));
            let Some(orders) = want.get(&got) else {
                return Err(format!("under schedule {trace:?} the calls' outcome is that of no order of them: {:.600}", got));
            };
            // finished before the other began
            let before = |(t, i): (usize, usize), (u, j): (usize, usize)| results[t][i].2 < results[u][j].1;
            let fits = orders.iter().any(|order| {
                let mut at = vec![0; prog.len()];
                let mut seen: Vec<(usize, usize)> = vec![];
                for t in order {
                    let t = *t as usize;
                    let c = (t, owner[t][at[t]]);
                    at[t] += 1;
                    if seen.iter().any(|d| d.0 != c.0 && before(c, *d)) {
                        return false;
                    }
                    seen.push(c);
                }
                true
            });
            ck!(fits, "under schedule {trace:?} a call does not see what another did before: {:.600}", got);
            Ok(())
        },
    )?;
    st.state(fp(&format!("{prog:?}{}", s.overwrite)));
    Ok(())
}

fn alphabet() -> Vec<Op> {
    vec![
        Op::Write(0),
        Op::Write(1),
        Op::Update(0),
        Op::Update(1),
        Op::Purge(1),
        Op::Purge(2),
        Op::PutLeaf(1),
        Op::PutLeaf(2),
        Op::PutPreimage(1),
        Op::PutPreimage(2),
        Op::Node(0),
        Op::Node(usize::MAX),
        Op::Value(Version::MAX, 0),
        Op::Value(1, 0),
        Op::Value(Version::MAX, 1),
        Op::Rightmost,
        Op::Count,
        Op::Preimage(0),
    ]
}
fn writes(o: Op) -> bool {
    matches!(o, Op::Write(_) | Op::Update(_) | Op::Purge(_) | Op::PutLeaf(_) | Op::PutPreimage(_))
}

// ------------------------------------------------------------ whole operations
#[derive(Clone, Copy, Debug)]
enum Job {
    /// Commits the last version.
    Commit,
    /// Writes the nodes and values of the last version.
    Nodes,
    Purge(Version),
    Get(usize),
    Proof(usize),
    Exclusion(usize),
    Range,
    Iterate,
    Index(usize),
    Count,
    Root,
    /// Reads the last version, which may or may not be there yet.
    Latest(usize),
    LatestAll,
}
const READ: Version = 1;
fn job(h: &Hist, store: &Arc<MockTreeStore>, j: Job) -> R<String> {
    let t = Sha256Jmt::new(&**store);
    let e = |e: anyhow::Error| format!("{j:?} fails: {e:#}");
    let k = keys();
    let last = h.sets.len() as u64 - 1;
    Ok(match j {
        Job::Commit => {
            let (root, b) = t.put_value_set(h.sets[last as usize].clone(), last).map_err(e)?;
            store.write_tree_update_batch(b.clone()).map_err(e)?;
            ck!(root == h.roots[last as usize] && b == h.batches[last as usize], "the commit gives another root or batch");
            String::new()
        }
        Job::Nodes => {
            store.write_node_batch(&h.batches[last as usize].node_batch).map_err(e)?;
            String::new()
        }
        Job::Purge(v) => {
            store.purge_stale_nodes(v).map_err(e)?;
            String::new()
        }
        Job::Get(i) => format!("{:?}", t.get(k[i], READ).map_err(e)?),
        Job::Proof(i) => format!("{:?}", t.get_with_proof(k[i], READ).map_err(e)?),
        Job::Exclusion(i) => format!("{:?}", t.get_with_exclusion_proof(k[i], READ).map_err(|_| ()).ok()),
        Job::Range => match h.maps[READ as usize].keys().next() {
            Some(k) => format!("{:?}", t.get_range_proof(*k, READ).map_err(e)?),
            None => String::new(),
        },
        Job::Iterate => format!("{:?}", all(store, READ).map_err(e)?),
        Job::Index(i) => {
            let it = JellyfishMerkleIterator::new_by_index(store.clone(), READ, i).map_err(e)?;
            format!("{:?}", it.collect::<Result<Vec<_>>>().map_err(e)?)
        }
        Job::Count => format!("{:?}", t.get_leaf_count(READ).map_err(e)?),
        Job::Root => format!("{:?}", t.get_root_hash(READ).map_err(e)?),
        Job::Latest(i) => {
            if let Some(root) = t.get_root_hash_option(last).map_err(e)? {
                ck!(root == h.roots[last as usize], "the new version appears with another root");
                let (value, proof) = t.get_with_proof(k[i], last).map_err(e)?;
                ck!(value.as_ref() == h.maps[last as usize].get(&k[i]), "the new version reads {value:?}");
                ck!(proof.verify(root, k[i], value).is_ok(), "a proof of the new version does not verify");
            }
            String::new()
        }
        Job::LatestAll => {
            if t.get_root_hash_option(last).map_err(e)?.is_some() {
                let got: BTreeMap<_, _> = all(store, last).map_err(e)?.into_iter().collect();
                ck!(got == h.maps[last as usize], "the new version holds {got:?}");
            }
            String::new()
        }
    })
}
fn all(store: &Arc<MockTreeStore>, v: Version) -> Result<Vec<(KeyHash, OwnedValue)>> {
    JellyfishMerkleIterator::new(store.clone(), v, KeyHash([0; 32]))?.collect()
}
/// Every schedule of the jobs: each gives what it gives alone, and the store ends up the same.
fn together(th: bool, h: &Hist, jobs: &[Job], bound: Option<usize>, st: &mut Stats) -> R {
    detail(|| format!("threads {jobs:?} on a store of two versions of {:?}", h.sets));
    let base = || Arc::new(h.store(2, false));
    let alone: Vec<String> = jobs.iter().map(|j| job(h, &base(), *j)).collect::<R<_>>()?;
    let end = |s: &Arc<MockTreeStore>| -> String {
        let n = s.num_nodes();
        let p = said(|| s.purge_stale_nodes(Version::MAX));
        format!("{n} {p} {} {:?}", s.num_nodes(), all(s, 2).ok())
    };
    let done = base();
    for j in jobs {
        job(h, &done, *j)?;
    }
    // one after the other, in any order of the writing jobs
    let mut ends = vec![end(&done)];
    let done = base();
    for j in jobs.iter().rev() {
        job(h, &done, *j)?;
    }
    ends.push(end(&done));
    let bodies: Vec<Box<dyn Fn(&Arc<MockTreeStore>) -> R<String> + Sync>> = jobs
        .iter()
        .map(|j| Box::new(move |s: &Arc<MockTreeStore>| job(h, s, *j)) as Box<dyn Fn(&Arc<MockTreeStore>) -> R<String> + Sync>)
        .collect();
    let refs: Vec<&(dyn Fn(&Arc<MockTreeStore>) -> R<String> + Sync)> = bodies.iter().map(|b| &**b).collect();
    explore(th, bound, st, base, &refs, |s, results, dead, trace| {
        ck!(!dead, "the threads wait for each other forever (schedule {trace:?})");
        for (i, r) in results.into_iter().enumerate() {
            let r = r.ok_or_else(|| format!("{:?} panics under schedule {trace:?}", jobs[i]))?;
            let r = r.map_err(|e| format!("under schedule {trace:?}: {e}"))?;
            ck!(r == alone[i], "under schedule {trace:?} {:?} gives {r}, alone {}", jobs[i], alone[i]);
        }
        let e = end(s);
        ck!(ends.contains(&e), "under schedule {trace:?} the store ends up as {e}, one after the other as {ends:?}");
        Ok(())
    })?;
    st.state(fp(&format!("{jobs:?}{:?}", h.sets)));
    Ok(())
}

/// A restore into a store that others read meanwhile: the version is missing or complete.
fn restoring(th: bool, h: &Hist, version: usize, cut: usize, read_all: bool, bound: Option<usize>, st: &mut Stats) -> R {
    detail(|| format!("restoring version {version} of {:?}, cut at {cut}, while it is read", h.sets));
    let src = Arc::new(h.store(version + 1, false));
    let v = version as u64;
    let pairs = all(&src, v).map_err(|e| e.to_string())?;
    let root = h.roots[version];
    let mut chunks = vec![];
    for c in [&pairs[..cut.min(pairs.len())], &pairs[cut.min(pairs.len())..]] {
        if let Some((k, _)) = c.last() {
            chunks.push((c.to_vec(), Sha256Jmt::new(&*src).get_range_proof(*k, v).map_err(|e| e.to_string())?));
        }
    }
    let restore = |s: &Arc<MockTreeStore>| -> R<()> {
        let e = |e: anyhow::Error| format!("the restore fails: {e:#}");
        let mut r = JellyfishMerkleRestore::<Sha256>::new(s.clone(), v, root).map_err(e)?;
        for (c, p) in &chunks {
            r.add_chunk(c.clone(), p.clone()).map_err(e)?;
        }
        r.finish().map_err(e)
    };
    let read = |s: &Arc<MockTreeStore>| -> R<()> {
        let e = |e: anyhow::Error| format!("reading while restoring fails: {e:#}");
        let t = Sha256Jmt::new(&**s);
        if let Some(r) = t.get_root_hash_option(v).map_err(e)? {
            ck!(r == root, "another root appears while restoring");
            if read_all {
                let got = all(s, v).map_err(e)?;
                ck!(got == pairs, "the restored version is incomplete when its root appears");
            } else {
                for (k, x) in &pairs {
                    let (y, p) = t.get_with_proof(*k, v).map_err(e)?;
                    ck!(y.as_ref() == Some(x), "the restored version reads {y:?}");
                    ck!(p.verify(root, *k, y).is_ok(), "a proof does not verify");
                }
            }
        }
        Ok(())
    };
    let bodies: [&(dyn Fn(&Arc<MockTreeStore>) -> R<()> + Sync); 2] = [&restore, &read];
    explore(th, bound, st, || Arc::new(MockTreeStore::new(false)), &bodies, |s, results, dead, trace| {
        ck!(!dead, "the threads wait for each other forever (schedule {trace:?})");
        for r in results {
            r.ok_or_else(|| format!("a panic under schedule {trace:?}"))?.map_err(|e| format!("under schedule {trace:?}: {e}"))?;
        }
        ck!(all(s, v).ok().as_ref() == Some(&pairs), "the restored version is incomplete");
        Ok(())
    })?;
    st.state(fp(&format!("{version} {cut} {:?}", h.sets)));
    Ok(())
}

pub fn c28(ctx: &crate::util::Ctx) -> Info {
    let th = ctx.thorough();
    let hs = hists();
    let al = alphabet();
    let n = al.len();
    let settings: Vec<Setting> = [0, 2].iter().flat_map(|h| [false, true].map(|o| Setting::new(&hs[*h], o))).collect();
    // whole operations against a commit, against pruning, against both
    let mut readers = vec![];
    for k in 0..5 {
        readers.extend([Job::Get(k), Job::Proof(k), Job::Exclusion(k), Job::Latest(k)]);
    }
    readers.extend([Job::Range, Job::Iterate, Job::Index(0), Job::Index(1), Job::Count, Job::Root, Job::LatestAll]);
    let r = readers.len();
    ctx.family("commit-and-read", hs.len() * r, |i, st| together(th, &hs[i / r], &[Job::Commit, readers[i % r]], if th { None } else { Some(4) }, st));
    ctx.family("prune-and-read", hs.len() * r * 2, |i, st| together(th, &hs[i / r / 2], &[Job::Purge((i / r % 2) as u64), readers[i % r]], None, st));
    ctx.family("commit-and-prune", hs.len() * 2, |i, st| together(th, &hs[i / 2], &[Job::Commit, Job::Purge((i % 2) as u64)], None, st));
    ctx.family("commit-prune-and-read", hs.len() * r, |i, st| together(th, &hs[i / r], &[Job::Commit, Job::Purge(1), readers[i % r]], Some(if th { 3 } else { 2 }), st));
    // large batches: written, pruned, read
    let wides: Vec<Hist> = [20, 70, if th { 1000 } else { 300 }].iter().map(|n| wide(*n)).collect();
    ctx.family("wide", wides.len() * r * 3, |i, st| {
        let (h, x, j) = (&wides[i / r / 3], i / r % 3, readers[i % r]);
        match x {
            0 => together(th, h, &[Job::Nodes, j], None, st),
            1 => together(th, h, &[Job::Purge(1), j], None, st),
            _ => together(th, h, &[Job::Nodes, Job::Purge(1), j], if th { Some(2) } else { Some(1) }, st),
        }
    });
    ctx.family("restore-and-read", hs.len() * 3 * 4 * 2, |i, st| {
        let (h, version, cut, whole) = (i / 24, i / 8 % 3, i / 2 % 4, i % 2 == 1);
        restoring(th, &hs[h], version, cut, whole, if th { None } else { Some(4) }, st)
    });
    ctx.family("restore-and-read-wide", wides.len() * 8, |i, st| {
        let h = &wides[i / 8];
        restoring(th, h, i % 2 * 2, h.maps[2].len() * (i / 2 % 2) / 2, i % 8 < 4, Some(2), st)
    });
    // one call each, two or three threads
    ctx.family("calls-1-1", settings.len() * n * n, |i, st| {
        let s = &settings[i % settings.len()];
        let i = i / settings.len();
        atomic(th, s, &[vec![al[i % n]], vec![al[i / n]]], st)
    });
    ctx.family("calls-1-1-1", settings.len() * n * n * n, |i, st| {
        let s = &settings[i % settings.len()];
        let i = i / settings.len();
        let (a, b, c) = (i % n, i / n % n, i / n / n);
        if a > b || b > c || [a, b, c].iter().all(|x| !writes(al[*x])) {
            return Ok(());
        }
        if [a, b, c].iter().filter(|x| matches!(al[**x], Op::Update(_))).count() > 2 {
            return Ok(());
        }
        atomic(th, s, &[vec![al[a]], vec![al[b]], vec![al[c]]], st)
    });
    let take = if th { settings.len() } else { 1 };
    ctx.family("calls-2-2", take * n.pow(4), |i, st| {
        let s = &settings[i % take];
        let i = i / take;
        let (a, b) = (i % (n * n), i / (n * n));
        let p = [vec![al[a % n], al[a / n]], vec![al[b % n], al[b / n]]];
        // the order of the threads doesn't matter, and two that only read don't meet
        if a > b || p.iter().any(|t| t.iter().all(|o| !writes(*o))) && !th && p[0] == p[1] {
            return Ok(());
        }
        if !p.iter().flatten().any(|o| writes(*o)) || p.iter().flatten().filter(|o| matches!(o, Op::Update(_))).count() > 2 {
            return Ok(());
        }
        atomic(th, s, &p, st)
    });
    ctx.sample(|| format!("threads [{:?}, {:?}] and [{:?}]", al[2], al[4], al[12]));
    Info {
        level: "model_checking",
        rule: "stateless exploration with a controlled scheduler: every order of the lock acquisitions of every program of threads within the bounds, equivalent orders once (sleep sets), longer programs up to a number of preemptions",
        ..mc("")
    }
}
