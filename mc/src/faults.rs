//! Schedules and faults: C08 (commits landing between a reader's storage reads), C10 (torn
//! commits), C22 (appends), C23 (failing reads).
use crate::basic::*;
use crate::ics::{register, Ident};
use crate::restore::*;
use crate::shapes::*;
use crate::spec::*;
use crate::store::*;
use crate::util::*;
use crate::world::*;
use crate::{ck, mc, Info};
use anyhow::bail;
use jmt::restore::StateSnapshotReceiver;
use jmt::storage::*;
use jmt::{JellyfishMerkleIterator, JellyfishMerkleTree, SimpleHasher, Version};
use sha2::Sha256;
use std::cell::{Cell, RefCell};
use std::collections::BTreeSet;
use std::rc::Rc;
use std::sync::Arc;

/// One operation of a reader at a version.
#[derive(Clone, Debug)]
pub enum Op {
    Get(K),
    Proof(K),
    Excl(K),
    Range(K),
    Root,
    RootOpt,
    Leaves,
    Iter(K),
    Index(usize),
}
/// Its answer, as bytes.
pub fn run_op<H: SimpleHasher + std::fmt::Debug>(s: &Arc<MemStore>, v: Version, op: &Op) -> anyhow::Result<Vec<u8>> {
    let t = JellyfishMerkleTree::<MemStore, H>::new(s);
    let drain = |mut it: JellyfishMerkleIterator<MemStore>| -> anyhow::Result<Vec<u8>> {
        let mut out = vec![];
        while let Some(x) = it.next() {
            let (k, val) = x?;
            out.push((k.0, val));
            assert!(out.len() < 100_000, "iteration does not end");
        }
        Ok(borsh::to_vec(&out)?)
    };
    Ok(match op {
        Op::Get(k) => borsh::to_vec(&t.get(kh(k), v)?)?,
        Op::Proof(k) => borsh::to_vec(&t.get_with_proof(kh(k), v)?)?,
        Op::Excl(k) => match t.get_with_exclusion_proof(kh(k), v)? {
            Ok(x) => borsh::to_vec(&x)?,
            Err(e) => format!("{e:?}").into_bytes(),
        },
        Op::Range(k) => borsh::to_vec(&t.get_range_proof(kh(k), v)?)?,
        Op::Root => t.get_root_hash(v)?.0.to_vec(),
        Op::RootOpt => borsh::to_vec(&t.get_root_hash_option(v)?.map(|r| r.0))?,
        Op::Leaves => borsh::to_vec(&(t.get_leaf_count(v)? as u64))?,
        Op::Iter(k) => drain(JellyfishMerkleIterator::new(s.clone(), v, kh(k))?)?,
        Op::Index(i) => drain(JellyfishMerkleIterator::new_by_index(s.clone(), v, *i)?)?,
    })
}
pub fn ops(m: &Map, probes: &[K], nk: usize) -> Vec<Op> {
    let mut out = vec![Op::Root, Op::RootOpt, Op::Leaves, Op::Iter([0; 32])];
    for k in probes.iter().take(nk) {
        out.extend([Op::Get(*k), Op::Proof(*k), Op::Excl(*k)]);
        if m.contains_key(k) {
            out.push(Op::Range(*k));
        }
    }
    for k in probes.iter().take(2) {
        out.push(Op::Iter(*k));
    }
    for i in 0..m.len().min(3) {
        out.push(Op::Index(i));
    }
    out.push(Op::Index(m.len()));
    out
}
/// Runs `f` and counts the storage accesses it makes.
pub fn counted<T>(s: &MemStore, f: impl FnOnce() -> T) -> (T, usize) {
    let n = Rc::new(Cell::new(0));
    let n2 = n.clone();
    s.set_hook(Some(Box::new(move |_, _| {
        n2.set(n2.get() + 1);
        Ok(())
    })));
    let r = f();
    s.set_hook(None);
    (r, n.get())
}

// ---------------------------------------------------------------- C08
pub struct C08 {
    /// keys asked for
    keys: usize,
    /// two commits are placed independently in operations with up to this many accesses
    two: usize,
    /// all places are tried in operations with up to this many accesses
    all: usize,
}
/// Runs the operation with the later batches landing before the given storage accesses.
fn scheduled<T>(s: &MemStore, batches: &[Rc<TreeUpdateBatch>], at: &[usize], f: impl FnOnce() -> T) -> T {
    struct Plan {
        batches: Vec<Rc<TreeUpdateBatch>>,
        at: Vec<usize>,
        next: usize,
        count: usize,
        undo: Undo,
    }
    let plan = Rc::new(RefCell::new(Plan {
        batches: batches.to_vec(),
        at: at.to_vec(),
        next: 0,
        count: 0,
        undo: Undo::default(),
    }));
    let p2 = plan.clone();
    s.set_hook(Some(Box::new(move |s, _| {
        let p = &mut *p2.borrow_mut();
        let mut c = vec![];
        while p.next < p.at.len() && p.at[p.next] <= p.count {
            apply_logged(s, &p.batches[p.next], &mut p.undo, &mut c);
            p.next += 1;
        }
        p.count += 1;
        Ok(())
    })));
    let r = f();
    s.set_hook(None);
    undo_apply(s, &plan.borrow().undo);
    r
}
/// All nondecreasing sequences of `m` points among 0..=n.
fn points(n: usize, m: usize) -> Vec<Vec<usize>> {
    let mut out = vec![vec![]];
    for _ in 0..m {
        let mut next = vec![];
        for s in &out {
            for p in s.last().copied().unwrap_or(0)..=n {
                let mut t: Vec<usize> = s.clone();
                t.push(p);
                next.push(t);
            }
        }
        out = next;
    }
    out
}
impl<H: SimpleHasher + std::fmt::Debug> Oracle<H> for C08 {
    fn commit(&self, w: &World<H>, d: &Done<H>, _c: &Commit, st: &mut Stats) -> R {
        if let Some(x) = d.conflicts.first() {
            return Err(x.clone());
        }
        ck!(w.store.writes.get() == 0, "computing a version writes to the store");
        let new = new_versions(d);
        let mut first = new.start;
        for b in &d.batches {
            let last = if d.batches.len() > 1 { first } else { new.end - 1 };
            for k in b.node_batch.nodes().keys() {
                ck!((first..=last).contains(&k.version()), "the batch of versions {first}..={last} holds the node {k:?}");
            }
            for (v, k) in b.node_batch.values().keys() {
                ck!((first..=last).contains(v), "the batch of versions {first}..={last} holds a value of {k:?} for version {v}");
            }
            first = last + 1;
        }
        let old: Vec<Version> = (w.first..new.start).collect();
        if old.is_empty() {
            return Ok(());
        }
        // a second commit landing after this one: everything changes
        let mut u: Ups = w.cur().keys().enumerate().map(|(i, k)| (*k, (i % 3 > 0).then(|| vb(i + 90)))).collect();
        for (i, k) in w.probes.iter().take(2).enumerate() {
            u.push((*k, (!w.cur().contains_key(k)).then(|| va(i + 50))));
        }
        let (_, b2, _) = e2s("write", compute::<H>(&w.store, &[u], How::Sets, w.next))?;
        let mut later: Vec<Rc<TreeUpdateBatch>> = d.batches.iter().map(|b| Rc::new(b.clone())).collect();
        later.truncate(2);
        if later.len() < 2 {
            later.push(Rc::new(b2));
        }
        w.before(d, || {
            let pinned: Vec<Version> = if old.len() <= 3 { old.clone() } else { vec![old[0], old[old.len() / 2], old[old.len() - 1]] };
            for v in pinned {
                let m = w.at(v);
                for op in ops(m, &w.probes, self.keys) {
                    let (want, n) = counted(&w.store, || run_op::<H>(&w.store, v, &op).ok());
                    let m = if n <= self.two { 2 } else { 1 };
                    for at in points(n, m.min(later.len())) {
                        if n > self.all && at[0] % (n / self.all + 1) != 0 {
                            continue;
                        }
                        let got = scheduled(&w.store, &later, &at, || run_op::<H>(&w.store, v, &op).ok());
                        st.add("evaluations", 1);
                        st.add("schedules", 1);
                        st.add("nontrivial", (at[0] > 0 && at[0] < n) as u64);
                        if got != want {
                            detail(|| format!("{} ; {op:?} at version {v}, later commits landing before its storage accesses {at:?}", history_text()));
                            return Err(format!("{op:?} at version {v} answers differently when later commits land before its storage accesses {at:?}"));
                        }
                    }
                }
            }
            Ok(())
        })
    }
}
pub fn c08(ctx: &Ctx) -> Info {
    let us = universes();
    let th = ctx.thorough();
    let o = C08 { keys: 5, two: if th { 12 } else { 5 }, all: if th { 1000 } else { 16 } };
    let small = C08 { keys: if th { 4 } else { 2 }, ..o };
    let u = |n: &str| us.iter().find(|u| u.name == n).unwrap().keys.clone();
    for n in ["near", "prefixed", "deep"] {
        run_dfs::<Mix>(ctx, &Dfs::new(n, &u(n), 2, 2, if n == "near" { 0 } else { 4 }, How::Sets), &o);
        let d = if n == "deep" { 3 } else { 4 };
        run_dfs::<Mix>(ctx, &Dfs::new(n, &u(n), 1, if th { d + 1 } else { d }, 0, How::OneProof), &o);
    }
    for n in ["wide", "chain", "mixed5", "six"] {
        run_dfs::<Mix>(ctx, &Dfs::new(n, &u(n), 1, if th { 4 } else { 3 }, 0, How::Sets), &o);
    }
    if th {
        run_dfs::<Sha256>(ctx, &Dfs::new("near", &u("near"), 2, 3, 0, How::Sets), &C08 { keys: 3, ..o });
    }
    shapes_all::<Mix>(ctx, &small, Load::Heavy, How::Sets);
    grouped_less::<Mix>(ctx, &small, 1);
    bulk_shapes::<Mix>(ctx, &small);
    for n in ["near", "prefixed", "wide", "mixed5"] {
        run_dfs::<Ident>(ctx, &Dfs::new(&format!("ics23-{n}"), &u(n), 1, if th { 4 } else { 3 }, 0, How::Sets), &IcsSchedules);
    }
    shapes_all::<Ident>(ctx, &IcsSchedules, Load::Heavy, How::Sets);
    mc("schedules: for every reader operation at every earlier version of every explored history, every placement of the following two commits between its storage accesses")
}

/// The ics23 proof of a key, of a version, as the operation of a reader (C08, C23).
fn ics_op(s: &MemStore, v: Version, k: &K) -> anyhow::Result<(Option<V>, ics23::CommitmentProof)> {
    JellyfishMerkleTree::<MemStore, Ident>::new(s).get_with_ics23_proof(k.to_vec(), v)
}
struct IcsSchedules;
impl Oracle<Ident> for IcsSchedules {
    fn commit(&self, w: &World<Ident>, d: &Done<Ident>, _c: &Commit, st: &mut Stats) -> R {
        register(w);
        let new = new_versions(d);
        if new.start == w.first {
            return Ok(());
        }
        let v = new.start - 1;
        let later: Vec<Rc<TreeUpdateBatch>> = d.batches.iter().take(2).map(|b| Rc::new(b.clone())).collect();
        w.before(d, || {
            for k in w.probes.iter().take(5) {
                let (want, n) = counted(&w.store, || ics_op(&w.store, v, k).ok());
                ck!(w.at(v).is_empty() || want.is_some(), "no ics23 proof of {} at version {v}", kx(k));
                for at in points(n, 1) {
                    let got = scheduled(&w.store, &later, &at, || ics_op(&w.store, v, k).ok());
                    st.add("evaluations", 1);
                    st.add("schedules", 1);
                    st.add("nontrivial", (at[0] > 0 && at[0] < n) as u64);
                    ck!(got == want, "the ics23 proof of {} at version {v} is another one when a later commit lands before storage access {at:?}", kx(k));
                }
            }
            Ok(())
        })
    }
}

// ---------------------------------------------------------------- C10
pub struct C10 {
    /// all subsets of batches with up to this many records
    full: usize,
    keys: usize,
    /// of the list for batches of n > 20 records, every (n / thin)th is tried
    thin: usize,
}
/// Known finding: at version 0, deleting while the tree is empty forgets the synthetic root, and
/// the next access takes a torn root of version 0 from the storage.
fn deletes_from_empty(first: Version, set: &Ups) -> bool {
    let mut m: BTreeSet<K> = BTreeSet::new();
    if first != 0 {
        return false;
    }
    for (k, v) in set {
        if v.is_some() {
            m.insert(*k);
        } else {
            if m.is_empty() {
                return true;
            }
            m.remove(k);
        }
    }
    false
}
#[derive(Clone)]
enum Rec {
    N(NodeKey, Node),
    V(Version, K, Option<V>),
    S(StaleNodeIndex),
}
fn batch_eq(a: &TreeUpdateBatch, b: &TreeUpdateBatch) -> bool {
    a == b
}
impl<H: SimpleHasher> Oracle<H> for C10 {
    fn commit(&self, w: &World<H>, d: &Done<H>, c: &Commit, st: &mut Stats) -> R {
        if d.batches.len() != 1 {
            return Ok(());
        }
        let b = &d.batches[0];
        let mut recs: Vec<Rec> = b.node_batch.nodes().iter().map(|(k, n)| Rec::N(k.clone(), n.clone())).collect();
        recs.extend(b.node_batch.values().iter().map(|((v, k), x)| Rec::V(*v, k.0, x.clone())));
        let n = recs.len();
        let stale: Vec<Rec> = b.stale_node_index_batch.iter().map(|s| Rec::S(s.clone())).collect();
        // which records survive
        let mut torn: Vec<Vec<usize>> = vec![];
        if n <= self.full {
            for m in 0..1usize << n {
                torn.push((0..n).filter(|i| m >> i & 1 == 1).collect());
            }
        } else {
            for i in 0..=n {
                torn.push((0..i).collect());
                torn.push((i..n).collect());
                if i < n {
                    torn.push(vec![i]);
                    torn.push((0..n).filter(|j| *j != i).collect());
                }
            }
            for i in 0..n.min(12) {
                for j in 0..i {
                    torn.push(vec![j, i]);
                }
            }
            torn.push((0..n).step_by(2).collect());
            torn.push((1..n).step_by(2).collect());
            if n > 20 {
                torn = torn.into_iter().step_by(n / self.thin).collect();
            }
        }
        let few: Vec<K> = w.probes.iter().take(self.keys).copied().collect();
        let old: Vec<Version> = (w.first..d.first).collect();
        let old: Vec<Version> = if old.len() <= 3 { old } else { vec![old[0], old[old.len() / 2], old[old.len() - 1]] };
        // other batches for the same version
        let mut others: Vec<(Ups, How)> = vec![(vec![], How::Sets), (c.sets[0].clone(), How::OneProof)];
        for (i, k) in w.probes.iter().take(if n <= 12 { 3 } else { 2 }).enumerate() {
            others.push((vec![(*k, Some(va(i + 40)))], if i % 2 == 0 { How::Sets } else { How::Bulk }));
            others.push((vec![(*k, None)], How::Sets));
        }
        others.push((few.iter().take(2).map(|k| (*k, None)).chain(few.iter().take(3).map(|k| (*k, Some(va(9))))).collect(), How::Sets));
        w.before(d, || {
            let s = &w.store;
            let mut clean = vec![];
            for v in &old {
                clean.push(observe::<H>(s, *v, &few)?);
            }
            let mut want = vec![];
            for (u, how) in &others {
                want.push(e2s("write", compute::<H>(s, std::slice::from_ref(u), *how, d.first))?);
            }
            for (ti, t) in torn.iter().enumerate() {
                let mut undo = Undo::default();
                let mut conf = vec![];
                let with_stale = ti % 2 == 1 || t.len() == n;
                let mut part = TreeUpdateBatch::default();
                for r in t.iter().map(|i| &recs[*i]).chain(stale.iter().filter(|_| with_stale)) {
                    match r {
                        Rec::N(k, x) => {
                            part.node_batch.insert_node(k.clone(), x.clone());
                        }
                        Rec::V(v, k, x) => part.node_batch.extend([], [((*v, kh(k)), x.clone())]),
                        Rec::S(x) => {
                            part.stale_node_index_batch.insert(x.clone());
                        }
                    }
                }
                apply_logged(s, &part, &mut undo, &mut conf);
                let torn_root = part.node_batch.get_node(&root_key(d.first)).is_some();
                st.add("crash points", 1);
                st.add("traces", 1);
                st.add("nontrivial", (!t.is_empty() && t.len() < n) as u64);
                let r = (|| -> R {
                    for (v, o) in old.iter().zip(&clean) {
                        let got = observe::<H>(s, *v, &few).map_err(|e| format!("with a torn commit on disk, version {v}: {e}"))?;
                        ck!(got == *o, "with a torn commit of version {} on disk, version {v} reads differently", d.first);
                        st.add("evaluations", 1);
                    }
                    // retry
                    let known = |u: &Ups| torn_root && deletes_from_empty(d.first, u);
                    let again = no_panic(|| compute::<H>(s, &c.sets, c.how, d.first)).and_then(|r| e2s("retrying a torn commit", r));
                    st.add("evaluations", 1);
                    let ok = match &again {
                        Ok((r2, b2, _)) => *r2 == d.roots && batch_eq(b2, b),
                        Err(_) => false,
                    };
                    if !ok {
                        if !(known(&c.sets[0]) && st.known("C10", KNOWN_C10)) {
                            again?;
                            return Err("retrying a torn commit gives a different root or batch".into());
                        }
                    } else {
                        let mut u2 = Undo::default();
                        apply_logged(s, &again.unwrap().1, &mut u2, &mut vec![]);
                        for v in d.first..d.first + d.roots.len() as u64 {
                            let (_, l) = walk::<H>(s, v)?;
                            ck!(l == leaves::<H>(w.at(v)), "a retried commit leaves version {v} with wrong contents");
                            st.add("evaluations", 1);
                        }
                        undo_apply(s, &u2);
                    }
                    for ((u, how), (wr, wb, wp)) in others.iter().zip(&want) {
                        let got = no_panic(|| compute::<H>(s, std::slice::from_ref(u), *how, d.first)).and_then(|r| e2s("writing another batch over a torn commit", r));
                        st.add("evaluations", 1);
                        let ok = match &got {
                            Ok((r2, b2, p2)) => r2 == wr && batch_eq(b2, wb) && enc(p2)? == enc(wp)?,
                            Err(_) => false,
                        };
                        if !ok {
                            if !(known(u) && st.known("C10", KNOWN_C10)) {
                                got?;
                                return Err(format!("writing {:?} over a torn commit gives a different root, batch or proof", Commit { sets: vec![u.clone()], how: *how }));
                            }
                        }
                    }
                    Ok(())
                })();
                undo_apply(s, &undo);
                if r.is_err() {
                    detail(|| {
                        format!(
                            "{} ; of the last commit only these records reached the disk: {:?} {:?}, stale index: {with_stale}",
                            history_text(),
                            part.node_batch.nodes().keys().collect::<Vec<_>>(),
                            part.node_batch.values().keys().map(|(v, k)| format!("value {}@{v}", kx(&k.0))).collect::<Vec<_>>()
                        )
                    });
                    return r;
                }
            }
            Ok(())
        })
    }
}
const KNOWN_C10: &str = "retrying version 0 on storage that holds version 0's torn root, with a deletion executed while the tree is still empty, starts from the torn root (tree_cache.rs TreeCache::new/delete_node)";
pub fn c10(ctx: &Ctx) -> Info {
    let us = universes();
    let th = ctx.thorough();
    let u = |n: &str| us.iter().find(|u| u.name == n).unwrap().keys.clone();
    let o = C10 { full: if th { 9 } else { 6 }, keys: 4, thin: if th { 20 } else { 5 } };
    for (n, first) in [("near", 0), ("prefixed", 1), ("deep", 0)] {
        if th || n != "deep" {
            run_dfs::<Mix>(ctx, &Dfs::new(n, &u(n), 2, 2, first, How::Sets), &C10 { full: if th { 8 } else { 5 }, keys: 3, ..o });
        }
        run_dfs::<Mix>(ctx, &Dfs::new(n, &u(n), 1, if th { 4 } else { 3 }, 0, How::Sets), &o);
    }
    for n in ["wide", "chain", "six"] {
        run_dfs::<Mix>(ctx, &Dfs::new(n, &u(n), 1, if th { 3 } else { 2 }, 0, How::Proofs), &o);
    }
    grouped_less::<Mix>(ctx, &C10 { full: if th { 8 } else { 5 }, keys: 2, ..o }, 1);
    bulk_shapes::<Mix>(ctx, &C10 { full: if th { 8 } else { 5 }, keys: 2, ..o });
    shapes_all::<Mix>(ctx, &C10 { full: if th { 7 } else { 4 }, keys: if th { 3 } else { 2 }, ..o }, Load::Heavy, How::Sets);
    let mut i = mc("crash points: for the commits of every explored history, every subset of the records of its batch (large batches: all prefixes, suffixes, singletons, complements and pairs) left on disk");
    i.level = "fault_enumeration";
    i
}

// ---------------------------------------------------------------- C22
#[derive(Clone)]
struct App {
    first: Version,
    maps: Vec<Rc<Map>>,
    probes: Rc<Vec<K>>,
}
#[derive(Clone, Debug)]
enum Ev {
    Commit(Ups),
    Append(Ups),
    Prune,
}
impl App {
    fn latest(&self) -> Version {
        self.first + self.maps.len() as u64 - 1
    }
}
fn reads_right<H: SimpleHasher>(s: &Arc<MemStore>, v: Version, m: &Map, pr: &[K], st: &mut Stats) -> R {
    let t = JellyfishMerkleTree::<MemStore, H>::new(s);
    let r = e2s("get_root_hash", t.get_root_hash(v))?;
    ck!(r.0 == spec_root::<H>(m), "version {v} has a wrong root");
    ck!(e2s("get_leaf_count", t.get_leaf_count(v))? == m.len(), "version {v} has a wrong leaf count");
    for k in pr {
        let want = m.get(k);
        let got = e2s("get", t.get(kh(k), v))?;
        ck!(got.as_ref() == want, "get({}, {v}) = {got:?}, should be {want:?}", kx(k));
        let (got, p) = e2s("get_with_proof", t.get_with_proof(kh(k), v))?;
        ck!(got.as_ref() == want, "get_with_proof({}, {v}) = {got:?}, should be {want:?}", kx(k));
        ck!(p.verify(r, kh(k), got).is_ok(), "the proof of {} at version {v} does not verify", kx(k));
        st.add("evaluations", 2);
    }
    let it = e2s("iterator", JellyfishMerkleIterator::new(s.clone(), v, kh(&[0; 32])))?;
    let got = collect_iter(it)?;
    ck!(got.iter().map(|(k, v)| (k, v)).eq(m.iter()), "iterating version {v} yields wrong pairs");
    let (_, l) = walk::<H>(s, v)?;
    ck!(l == leaves::<H>(m), "version {v} holds wrong leaves");
    Ok(())
}
fn nothing_readable_stale<H: SimpleHasher>(s: &Arc<MemStore>, a: &App, from: Version) -> R {
    let latest = a.latest();
    for v in from..=latest {
        let (keys, _) = walk::<H>(s, v)?;
        for x in s.stale.borrow().iter() {
            ck!(x.stale_since_version > v || !keys.contains(&x.node_key), "node {:?} is reported stale since {} but version {v} uses it", x.node_key, x.stale_since_version);
        }
    }
    Ok(())
}
/// Executes one event on a copy and checks it. `pruned` is the oldest version that must still read.
fn event<H: SimpleHasher>(s: &Arc<MemStore>, a: &App, pruned: Version, e: &Ev, st: &mut Stats) -> R<(Arc<MemStore>, App, Version)> {
    let n = Arc::new((**s).clone());
    let mut a = a.clone();
    let latest = a.latest();
    let mut pruned = pruned;
    st.add("transitions", 1);
    match e {
        Ev::Commit(u) => {
            let (r, b, _) = e2s("write", compute::<H>(s, std::slice::from_ref(u), How::Sets, latest + 1))?;
            n.apply(&b)?;
            a.maps.push(Rc::new(apply_updates(a.maps.last().unwrap(), u)));
            ck!(r[0] == spec_root::<H>(a.maps.last().unwrap()), "a commit after an append gives a wrong root");
        }
        Ev::Append(u) => {
            let t = JellyfishMerkleTree::<MemStore, H>::new(&**s);
            let ups = || u.iter().map(|(k, v)| (kh(k), v.clone()));
            // only the latest version can be appended to
            for v in [latest.wrapping_add(1), latest.wrapping_sub(1), a.first, latest.wrapping_add(7), u64::MAX, 0] {
                if v != latest {
                    ck!(t.append_value_set(ups(), v).is_err(), "appending to version {v} is accepted, but the latest is {latest}");
                    st.add("evaluations", 1);
                }
            }
            let no_leaf = s.get_rightmost_leaf().unwrap().is_none();
            let r = t.append_value_set(ups(), latest);
            if no_leaf {
                ck!(r.is_err(), "appending to an empty store is accepted");
                return Ok((n, a, pruned));
            }
            let (root, b) = e2s("append_value_set", r)?;
            let m = Rc::new(apply_updates(a.maps.last().unwrap(), u));
            ck!(root.0 == spec_root::<H>(&m), "the root after an append is not that of the contents");
            for k in b.node_batch.nodes().keys() {
                ck!(k.version() == latest, "an append to version {latest} writes the node {k:?}");
            }
            for (v, k) in b.node_batch.values().keys() {
                ck!(*v == latest, "an append to version {latest} writes a value of {k:?} for version {v}");
            }
            n.apply_overwrite(&b);
            *a.maps.last_mut().unwrap() = m;
            st.add("appends", 1);
            st.add("nontrivial", 1);
        }
        Ev::Prune => {
            n.prune(latest)?;
            pruned = latest;
        }
    }
    st.state(fp(&(a.latest(), a.maps.last().unwrap(), pruned)));
    for v in pruned..=a.latest() {
        reads_right::<H>(&n, v, &a.maps[(v - a.first) as usize], &a.probes, st)?;
    }
    nothing_readable_stale::<H>(&n, &a, pruned)?;
    // pruning to any version now must keep that version and all later ones
    for cut in pruned..=a.latest() {
        let p = Arc::new((*n).clone());
        p.prune(cut)?;
        for v in cut..=a.latest() {
            let (_, l) = walk::<H>(&p, v).map_err(|e| format!("after pruning to {cut}, version {v}: {e}"))?;
            ck!(l == leaves::<H>(&a.maps[(v - a.first) as usize]), "after pruning to {cut}, version {v} holds wrong leaves");
            st.add("evaluations", 1);
        }
    }
    Ok((n, a, pruned))
}
fn app_rec<H: SimpleHasher>(s: &Arc<MemStore>, a: &App, pruned: Version, evs: &[Ev], left: usize, path: &mut Vec<Ev>, st: &mut Stats) -> R {
    for e in evs {
        path.push(e.clone());
        detail(|| format!("first version {}, contents {:?}, then {}", a.first, a.maps.iter().map(|m| m.keys().map(kx).collect::<Vec<_>>()).collect::<Vec<_>>(), show(path)));
        let (s2, a2, p2) = event::<H>(s, a, pruned, e, st)?;
        if left > 1 {
            app_rec::<H>(&s2, &a2, p2, evs, left - 1, path, st)?;
        } else {
            st.add("traces", 1);
        }
        path.pop();
    }
    Ok(())
}
fn show(p: &[Ev]) -> String {
    p.iter()
        .map(|e| match e {
            Ev::Commit(u) => format!("commit {:?}; ", one(u.clone())),
            Ev::Append(u) => format!("append {:?}; ", one(u.clone())),
            Ev::Prune => "prune; ".into(),
        })
        .collect()
}
fn app_start<H: SimpleHasher>(first: Version, init: &[Ups], probes: &[K]) -> R<(Arc<MemStore>, App)> {
    let s = Arc::new(MemStore::default());
    let mut a = App { first, maps: vec![], probes: Rc::new(probes.to_vec()) };
    for (i, u) in init.iter().enumerate() {
        let (_, b, _) = e2s("write", compute::<H>(&s, std::slice::from_ref(u), How::Sets, first + i as u64))?;
        s.apply(&b)?;
        let m = a.maps.last().cloned().unwrap_or_default();
        a.maps.push(Rc::new(apply_updates(&m, u)));
    }
    Ok((s, a))
}
/// All sequences of events after each start.
fn app_dfs<H: SimpleHasher>(ctx: &Ctx, name: &str, keys: &[K], depth: usize, doubles: bool) {
    let mut evs: Vec<Ev> = vec![];
    for x in singles(keys, false) {
        evs.push(Ev::Append(vec![x.clone()]));
        evs.push(Ev::Commit(vec![x]));
    }
    evs.push(Ev::Append(vec![]));
    evs.push(Ev::Commit(vec![]));
    evs.push(Ev::Prune);
    if doubles {
        for (i, x) in singles(keys, false).iter().enumerate() {
            for (j, y) in singles(keys, true).iter().enumerate() {
                if (i + j) % 2 == 0 {
                    evs.push(Ev::Append(vec![x.clone(), y.clone()]));
                }
            }
        }
    }
    let n = keys.len();
    let starts: Vec<Vec<Ups>> = vec![
        vec![puts(keys, va)],
        vec![puts(&keys[..n / 2 + 1], vb), puts(&keys[..1], va)],
        vec![puts(&keys[..1], va), vec![(keys[0], None)]],
        vec![puts(&keys[n - 1..], va), vec![], puts(&keys[..1], vb)],
        vec![vec![]],
    ];
    let ne = evs.len();
    ctx.family(&format!("appends-{name}-depth{depth}"), starts.len() * ne, |i, st| {
        let pr = probes(keys, n + 3);
        let first = [0, 1, 5][i % 3];
        let (s, a) = app_start::<H>(first, &starts[i / ne], &pr)?;
        let e = &evs[i % ne];
        let mut path = vec![e.clone()];
        detail(|| format!("start {}, {}", i / ne, show(&path)));
        let (s, a, p) = event::<H>(&s, &a, first, e, st)?;
        if depth > 1 {
            app_rec::<H>(&s, &a, p, &evs, depth - 1, &mut path, st)?;
        }
        Ok(())
    });
}
pub fn c22(ctx: &Ctx) -> Info {
    let us = universes();
    let th = ctx.thorough();
    let u = |n: &str| us.iter().find(|u| u.name == n).unwrap().keys.clone();
    ctx.family("empty-store", 4, |i, st| {
        let s = MemStore::default();
        let t = JellyfishMerkleTree::<MemStore, Sha256>::new(&s);
        for v in [0u64, 1, 2, u64::MAX] {
            let ups: Vec<_> = us[i].keys.iter().map(|k| (kh(k), Some(vec![1u8]))).collect();
            ck!(t.append_value_set(ups, v).is_err(), "appending to version {v} of an empty store is accepted");
            ck!(t.append_value_set(vec![], v).is_err(), "appending nothing to version {v} of an empty store is accepted");
            st.add("evaluations", 2);
        }
        Ok(())
    });
    for n in ["near", "prefixed", "deep"] {
        app_dfs::<Mix>(ctx, n, &u(n), 3, false);
        app_dfs::<Mix>(ctx, &format!("{n}-doubles"), &u(n), 2, true);
    }
    app_dfs::<Mix>(ctx, "near2", &u("near")[..2], if th { 5 } else { 4 }, false);
    app_dfs::<Sha256>(ctx, "wide", &u("wide"), if th { 3 } else { 2 }, false);
    app_dfs::<Sha256>(ctx, "chain", &u("chain"), if th { 3 } else { 2 }, true);
    app_dfs::<Mix>(ctx, "six", &u("six"), if th { 3 } else { 2 }, false);
    // shapes: a tree built in two versions, then grown, changed and cut by appends
    let bs = bases();
    let script = |keys: &[K], first: Version, st: &mut Stats| -> R {
        let n = keys.len();
        let pr = probes(keys, n.min(24) + 4);
        let evs = |k: &[K]| -> Vec<Ev> {
            vec![
                Ev::Append(k.iter().skip(n / 2).enumerate().map(|(i, k)| (*k, Some(va(i + 3)))).collect()),
                Ev::Append(vec![(k[n - 1], None), (k[0], Some(vb(1)))]),
                Ev::Commit(vec![(k[n / 2], Some(vb(2)))]),
                Ev::Append(vec![(k[0], None), (k[n / 2], None), (k[n - 1], Some(va(1)))]),
                Ev::Prune,
                Ev::Append(vec![(k[0], Some(va(2)))]),
                Ev::Append(k.iter().skip(1).map(|k| (*k, None)).collect()),
                Ev::Append(k.iter().enumerate().map(|(i, k)| (*k, Some(vb(i + 9)))).collect()),
                Ev::Commit(vec![]),
                Ev::Append(vec![(k[n - 1], None)]),
            ]
        };
        let (mut s, mut a) = app_start::<Mix>(first, &[puts(&keys[..n.div_ceil(2)], va), puts(&keys[..1], vb)], &pr)?;
        let mut p = first;
        for (i, e) in evs(keys).iter().enumerate() {
            detail(|| format!("{} keys such as {:?}: {}", n, keys.iter().take(4).map(kx).collect::<Vec<_>>(), show(&evs(keys)[..=i])));
            (s, a, p) = event::<Mix>(&s, &a, p, e, st)?;
        }
        st.add("traces", 1);
        Ok(())
    };
    ctx.family("pairs", 256 * 4, |i, st| {
        let b = bs[i / 256];
        let k = [b, flip(&b, i % 256)];
        script(&if i % 2 == 0 { k } else { [k[1], k[0]] }, (i % 3) as u64, st)
    });
    let ds = depths(th);
    let nd = ds.len();
    ctx.family("triples", nd * nd, |i, st| {
        let (a, b) = (ds[i % nd], ds[i / nd]);
        if a == b {
            return Ok(());
        }
        let x = bs[3];
        script(&[x, flip(&x, a), flip(&flip(&x, a.min(b)), b)], (i % 2) as u64, st)
    });
    let ms = masks(th);
    ctx.family("fans", ms.len(), |i, st| {
        let tw = [0u16, 0x1111, 0xffff, 0x8001][i % 4] & ms[i];
        script(&fan(&bs[[0, 1, 3][i % 3]], [0, 1, 2, 63][(i / 4) % 4], ms[i], tw), (i % 2) as u64, st)
    });
    ctx.family("big", 5, |i, st| {
        let keys = match i {
            0 => comb(&bs[0], if th { 256 } else { 60 }),
            1 => comb(&bs[3], if th { 256 } else { 60 }),
            2 => dense(),
            3 => many(if th { 600 } else { 200 }),
            _ => comb(&bs[1], 40),
        };
        script(&keys, i as u64, st)
    });
    mc("every sequence of appends, commits and prunings to the stated depth after several starting histories, and one long script over every tree shape of the sweeps; after each event every unpruned version is read in full and pruning at every version is tried")
}

// ---------------------------------------------------------------- C23
pub struct C23 {
    keys: usize,
    /// also pairs of failing reads
    pairs: bool,
    /// newest version only
    light: bool,
}
/// Fails the storage accesses with the given numbers (`rest`: and all after the last of them).
fn failing<T>(s: &MemStore, at: &[usize], rest: bool, f: impl FnOnce() -> T) -> T {
    let n = Cell::new(0usize);
    let at = at.to_vec();
    s.set_hook(Some(Box::new(move |_, c| {
        if *c == Call::Write {
            return Ok(());
        }
        let i = n.get();
        n.set(i + 1);
        if at.contains(&i) || (rest && i > *at.last().unwrap()) {
            bail!("injected read failure");
        }
        Ok(())
    })));
    let r = f();
    s.set_hook(None);
    r
}
/// Every way for the reads of an operation making `n` of them to fail.
fn fault_sets(n: usize, pairs: bool) -> Vec<(Vec<usize>, bool)> {
    let mut out = vec![];
    for i in 0..n {
        out.push((vec![i], false));
        if n < 20 || pairs || i % 7 == 0 {
            out.push((vec![i], true));
        }
        if pairs {
            for j in i + 1..n.min(i + 9) {
                out.push((vec![i, j], false));
            }
        }
    }
    out
}
/// Under every fault: an error or the same answer; and the same answer again afterwards.
fn never_wrong<T: PartialEq>(s: &MemStore, pairs: bool, what: &dyn Fn() -> String, st: &mut Stats, f: &dyn Fn() -> anyhow::Result<T>) -> R {
    let (want, n) = counted(s, || f().ok());
    for (at, rest) in fault_sets(n.min(400), pairs && n < 40) {
        detail(|| format!("{} ; {} with storage reads {at:?}{} failing", history_text(), what(), if rest { " and all later ones" } else { "" }));
        let got = failing(s, &at, rest, f);
        st.add("evaluations", 1);
        st.add("faults", 1);
        match got {
            Err(_) => st.add("errors reported", 1),
            Ok(x) => {
                st.add("nontrivial", 1);
                ck!(Some(&x) == want.as_ref(), "{} gives a wrong answer when storage read {at:?} fails", what())
            }
        }
        let again = f().ok();
        ck!(again == want, "{} gives a wrong answer after a storage read had failed", what());
    }
    Ok(())
}
fn iter_faults(s: &Arc<MemStore>, v: Version, m: &Map, start: &Op, pairs: bool, st: &mut Stats) -> R {
    let open = || match start {
        Op::Iter(k) => JellyfishMerkleIterator::new(s.clone(), v, kh(k)),
        Op::Index(i) => JellyfishMerkleIterator::new_by_index(s.clone(), v, *i),
        _ => unreachable!(),
    };
    let want: Vec<(K, V)> = match start {
        Op::Iter(k) => m.range(*k..).map(|(k, v)| (*k, v.clone())).collect(),
        Op::Index(i) => m.iter().skip(*i).map(|(k, v)| (*k, v.clone())).collect(),
        _ => unreachable!(),
    };
    // the accesses of opening are faulted elsewhere; fault those of the iteration
    let it = e2s("iterator", open())?;
    let (got, n) = counted(s, || collect_iter(it));
    ck!(got? == want, "{start:?} at version {v} yields wrong pairs");
    for (at, rest) in fault_sets(n.min(60), pairs) {
        // `rest`: every read fails once and succeeds when repeated
        detail(|| format!("{} ; {start:?} at version {v} with storage reads {at:?} {} failing", history_text(), if rest { "and then each other one once" } else { "" }));
        let mut it = e2s("iterator", open())?;
        let c = Cell::new(0usize);
        let at2 = at.clone();
        let mut once: Vec<Call> = vec![];
        let hit = Rc::new(Cell::new(false));
        let h2 = hit.clone();
        s.set_hook(Some(Box::new(move |_, call| {
            let i = c.get();
            c.set(i + 1);
            if at2.contains(&i) || (rest && i > at2[0] && !once.contains(call)) {
                once.push(call.clone());
                h2.set(true);
                bail!("injected read failure");
            }
            Ok(())
        })));
        let mut got = vec![];
        let mut errs = 0;
        let r = (|| -> R {
            while let Some(x) = it.next() {
                match x {
                    Ok((k, v)) => {
                        got.push((k.0, v));
                        ck!(got.len() <= want.len(), "an iterator repeats pairs after a failing read");
                    }
                    Err(_) => {
                        errs += 1;
                        ck!(errs <= 2 * n + 4, "an iterator keeps failing after a failed read");
                    }
                }
            }
            Ok(())
        })();
        s.set_hook(None);
        r?;
        st.add("evaluations", 1);
        st.add("faults", 1);
        ck!(got == want, "{start:?} at version {v} yields {} pairs instead of {} when storage reads {at:?} fail and it is continued", got.len(), want.len());
        ck!(errs > 0 || !hit.get(), "{start:?} at version {v} hides a failing storage read");
    }
    Ok(())
}
impl<H: SimpleHasher + std::fmt::Debug> Oracle<H> for C23 {
    fn commit(&self, w: &World<H>, d: &Done<H>, c: &Commit, st: &mut Stats) -> R {
        // reads at the new version and the one before (light: reads and writes take turns)
        let v = w.next - 1;
        for v in [v, v.wrapping_sub(1)] {
            if self.light && v % 2 == 1 {
                continue;
            }
            if v < w.first || v >= w.next || (self.light && v + 1 < w.next) {
                continue;
            }
            let m = w.at(v);
            if v + 1 == w.next || m.len() <= 3 {
                for op in ops(m, &w.probes, self.keys) {
                    never_wrong(&w.store, self.pairs, &|| format!("{op:?} at version {v}"), st, &|| run_op::<H>(&w.store, v, &op))?;
                }
            }
            let mut starts = vec![Op::Iter([0; 32]), Op::Index(0)];
            starts.extend(w.probes.iter().take(self.keys).map(|k| Op::Iter(*k)));
            if m.len() > 1 && !self.light {
                starts.push(Op::Index(1));
            }
            for s in starts {
                iter_faults(&w.store, v, m, &s, self.pairs, st)?;
            }
        }
        // a read at a version that does not exist: still an error
        for op in [Op::Root, Op::Leaves, Op::Iter([0; 32]), Op::Proof([0; 32])] {
            never_wrong(&w.store, false, &|| format!("{op:?} at a missing version"), st, &|| run_op::<H>(&w.store, w.next, &op))?;
        }
        // the write that was made
        if self.light && v % 2 == 0 {
            return Ok(());
        }
        let ins = c.sets.iter().all(|s| !s.is_empty() && s.iter().all(|(_, v)| v.is_some()));
        w.before(d, || {
            for how in [How::Sets, How::Proofs, How::Bulk] {
                if how == How::Bulk && !ins || how == How::Sets && self.light {
                    continue;
                }
                never_wrong(&w.store, self.pairs, &|| format!("writing the last commit with {how:?}"), st, &|| {
                    let (r, b, p) = compute::<H>(&w.store, &c.sets, how, d.first)?;
                    Ok((r, b, borsh::to_vec(&p)?))
                })?;
            }
            if d.first > w.first {
                never_wrong(&w.store, self.pairs, &|| "appending the last commit".into(), st, &|| {
                    let t = JellyfishMerkleTree::<MemStore, H>::new(&*w.store);
                    let (r, b) = t.append_value_set(c.sets[0].iter().map(|(k, v)| (kh(k), v.clone())), d.first - 1)?;
                    Ok((r.0, b))
                })?;
            }
            Ok(())
        })
    }
}
/// As C23, for ics23 proofs.
struct IcsFaults {
    keys: usize,
}
impl Oracle<Ident> for IcsFaults {
    fn commit(&self, w: &World<Ident>, _d: &Done<Ident>, _c: &Commit, st: &mut Stats) -> R {
        register(w);
        let v = w.next - 1;
        for k in w.probes.iter().take(self.keys) {
            never_wrong(&w.store, false, &|| format!("the ics23 proof of {} at version {v}", kx(k)), st, &|| ics_op(&w.store, v, k))?;
        }
        Ok(())
    }
}
/// Restoring with failing reads: at every stage of a resumed restore, every read fails once.
fn restore_faults<H: SimpleHasher>(m: &Map, v: Version, st: &mut Stats) -> R {
    let s = Source::<H>::new(m, v, false)?;
    let n = m.len();
    // stores after 0..n pairs, fed in chunks of one and in one chunk
    let mut bases: Vec<Arc<MemStore>> = vec![Arc::new(MemStore::default())];
    for upto in 1..=n {
        for whole in [false, true] {
            let store = Arc::new(MemStore::default());
            let mut r = e2s("opening a restore", s.open(&store))?;
            if whole {
                e2s("chunk", s.feed(&mut r, 0, upto))?;
            } else {
                for i in 0..upto {
                    e2s("chunk", s.feed(&mut r, i, i + 1))?;
                }
            }
            drop(r);
            bases.push(store);
        }
    }
    for (bi, base) in bases.iter().enumerate() {
        for over in [false, true] {
            let from = if over { 0 } else { s.resume_at(base) };
            let mut fail = 0;
            loop {
                detail(|| format!("{} pairs, base {bi}, {}resuming at {from}, storage read {fail} fails", n, if over { "over" } else { "" }));
                let store = Arc::new((**base).clone());
                let hit = Rc::new(Cell::new(false));
                let (h2, cnt) = (hit.clone(), Cell::new(0usize));
                store.set_hook(Some(Box::new(move |_, c| {
                    if *c != Call::Write {
                        let i = cnt.get();
                        cnt.set(i + 1);
                        if i == fail {
                            h2.set(true);
                            bail!("injected read failure");
                        }
                    }
                    Ok(())
                })));
                let open = || if over { s.overwrite(&store) } else { s.open(&store) };
                st.add("evaluations", 1);
                st.add("faults", 1);
                // each step may fail once, if the fault hit it; then it is repeated
                let mut r = match open() {
                    Ok(r) => r,
                    Err(e) => {
                        ck!(hit.get(), "opening a restore fails: {e:#}");
                        ck!(store.same_as(base), "a failed opening of a restore changes the store");
                        e2s("opening a restore again after a failing read", open())?
                    }
                };
                let mut a = from;
                while a < n {
                    let b = (a + 1 + bi % 2).min(n);
                    if let Err(e) = s.feed(&mut r, a, b) {
                        ck!(hit.get(), "an honest chunk is rejected: {e:#}");
                        e2s("repeating a chunk after a failing read", s.feed(&mut r, a, b))?;
                    }
                    a = b;
                }
                if let Err(e) = r.finish() {
                    ck!(hit.get(), "finishing fails: {e:#}");
                    store.set_hook(None);
                    let from = if over { 0 } else { s.resume_at(&store) };
                    let mut r = e2s("reopening after a failing read", if over { s.overwrite(&store) } else { s.open(&store) })?;
                    if from < n {
                        e2s("chunk", s.feed(&mut r, from, n))?;
                    }
                    e2s("finishing again after a failing read", r.finish())?;
                }
                store.set_hook(None);
                s.complete(&store, "after a failing read")?;
                if !hit.get() {
                    break;
                }
                fail += 1;
            }
        }
    }
    st.add("traces", 1);
    Ok(())
}
pub fn c23(ctx: &Ctx) -> Info {
    let us = universes();
    let th = ctx.thorough();
    let u = |n: &str| us.iter().find(|u| u.name == n).unwrap().keys.clone();
    let trees = small_trees();
    ctx.family("restores", trees.len(), |i, st| restore_faults::<Mix>(&trees[i], (i % 3) as u64, st));
    let bs = bases();
    let mk = |ks: &[K]| -> Map { ks.iter().enumerate().map(|(i, k)| (*k, va(i))).collect() };
    ctx.family("restores-pairs", 256, |i, st| {
        let b = bs[i % 4];
        restore_faults::<Mix>(&mk(&[b, flip(&b, i)]), (i % 3) as u64, st)
    });
    let ms = masks(false);
    let step = if th { 1 } else { 9 };
    ctx.family("restores-fans", ms.len() / step, |i, st| {
        let m = ms[i * step];
        restore_faults::<Mix>(&mk(&fan(&bs[i % 4], i % 4, m, [0u16, 0x1111, 0x8001][i % 3] & m)), 1, st)
    });
    let o = C23 { keys: 4, pairs: true, light: false };
    let light = C23 { keys: if th { 3 } else { 1 }, pairs: false, light: !th };
    for n in ["near", "prefixed", "deep"] {
        if th || n != "deep" {
            run_dfs::<Mix>(ctx, &Dfs::new(n, &u(n), 2, 2, 0, How::Sets), &C23 { keys: 3, pairs: th && n != "deep", light: false });
            run_dfs::<Mix>(ctx, &Dfs::new(n, &u(n), 1, if th && n != "deep" { 4 } else { 3 }, 3, How::Sets), &o);
        } else {
            run_dfs::<Mix>(ctx, &Dfs::new(n, &u(n), 1, 2, 3, How::Sets), &C23 { keys: 3, pairs: false, light: false });
        }
    }
    for n in ["wide", "chain", "mixed5", "six"] {
        run_dfs::<Mix>(ctx, &Dfs::new(n, &u(n), 1, if th { 3 } else { 2 }, 0, How::Sets), &o);
    }
    shapes_all::<Mix>(ctx, &light, Load::Heavy, How::Sets);
    bulk_shapes::<Mix>(ctx, &light);
    for n in ["near", "prefixed", "wide", "mixed5"] {
        run_dfs::<Ident>(ctx, &Dfs::new(&format!("ics23-{n}"), &u(n), 1, if th { 4 } else { 3 }, 0, How::Sets), &IcsFaults { keys: 6 });
    }
    shapes_all::<Ident>(ctx, &IcsFaults { keys: 2 }, Load::Heavy, How::Sets);
    let mut i = mc("fault points: for every operation at the newest versions of every explored history, for the write that made them, for an append, and for resumed restores, every storage read failing once, from then on, and in pairs");
    i.level = "fault_enumeration";
    i
}

