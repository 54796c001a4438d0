//! C27: what storage is handed (node keys, paths, nodes, stale indices) describes itself
//! consistently through its public accessors.
use crate::basic::*;
use crate::codec::path;
use crate::shapes::*;
use crate::spec::*;
use crate::store::*;
use crate::util::*;
use crate::world::*;
use crate::{ck, mc, Info};
use jmt::storage::*;
use jmt::{SimpleHasher, Version};
use sha2::Sha256;
use std::cmp::Ordering;
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};

fn h64<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}
fn ns(it: impl Iterator<Item = impl Into<u8>>) -> Vec<u8> {
    it.map(|x| x.into()).collect()
}
fn bits_of(n: &[u8]) -> Vec<bool> {
    n.iter().flat_map(|n| (0..4).map(move |i| n >> (3 - i) & 1 == 1)).collect()
}
/// Takes `plan` many items from the two ends (false: the front) and then the rest.
fn ends<T: PartialEq + std::fmt::Debug + Clone>(what: &str, mut it: impl DoubleEndedIterator<Item = T>, want: &[T], plan: &[bool]) -> R {
    let (mut a, mut b) = (0, want.len());
    for back in plan {
        let w = if a == b {
            None
        } else if *back {
            b -= 1;
            Some(want[b].clone())
        } else {
            a += 1;
            Some(want[a - 1].clone())
        };
        let g = if *back { it.next_back() } else { it.next() };
        ck!(g == w, "{what}: taking {plan:?} from the ends of {want:?} yields {g:?} instead of {w:?}");
    }
    let rest: Vec<T> = it.collect();
    ck!(rest == want[a..b], "{what}: after taking {plan:?} from {want:?}, {rest:?} is left");
    Ok(())
}
/// One path, against the sequence of nibbles `want`.
fn one_path(p: &NibblePath, want: &[u8], deep: bool, st: &mut Stats) -> R {
    let what = format!("{p:?}");
    let n = want.len();
    ck!(p.num_nibbles() == n, "{what} of {n} nibbles says {}", p.num_nibbles());
    ck!(p.is_empty() == (n == 0), "{what}: is_empty is {}", p.is_empty());
    let got: Vec<u8> = p.nibbles().map(u8::from).collect();
    ck!(got == want, "{what} lists the nibbles {got:?} instead of {want:?}");
    ck!(what == hexs(want), "the path {want:?} is shown as {what}");
    for (i, w) in want.iter().enumerate() {
        let g = u8::from(p.get_nibble(i));
        ck!(g == *w, "{what}: nibble {i} is {g}");
    }
    ck!(p.last().map(u8::from) == want.last().copied(), "{what}: the last nibble is {:?}", p.last());
    let bits = bits_of(want);
    ck!(p.bits().collect::<Vec<_>>() == bits, "{what}: wrong bits");
    ck!(p.bits().rev().eq(bits.iter().rev().copied()), "{what}: wrong bits from behind");
    let again: NibblePath = p.nibbles().collect();
    ck!(again == *p && h64(&again) == h64(p) && again.cmp(p) == Ordering::Equal, "{what}: a path of the same nibbles differs");
    st.add("evaluations", 1);
    // part way through
    let mut it = p.nibbles();
    for i in 0..=n {
        if deep || i % 7 == 0 || n - i < 2 {
            let v: Vec<u8> = it.visited_nibbles().map(u8::from).collect();
            ck!(v == want[..i], "{what}: after {i} nibbles, {v:?} count as visited");
            let r: Vec<u8> = it.remaining_nibbles().map(u8::from).collect();
            ck!(r == want[i..], "{what}: after {i} nibbles, {r:?} remain");
            ck!(it.bits().collect::<Vec<_>>() == bits[4 * i..], "{what}: wrong bits after {i} nibbles");
            ck!(it.bits().rev().eq(bits[4 * i..].iter().rev().copied()), "{what}: wrong bits from behind after {i} nibbles");
            ck!(it.num_nibbles() == n, "{what}: an iterator over {n} nibbles says {}", it.num_nibbles());
            ck!(it.is_finished() == (i == n), "{what}: is_finished is {} after {i} nibbles", it.is_finished());
            let whole = it.get_nibble_path();
            ck!(whole == *p, "{what}: the path of an iterator after {i} nibbles is {whole:?}");
            // sub-ranges
            let rem = it.remaining_nibbles();
            ck!(rem.get_nibble_path() == path(&want[i..]), "{what}: the path of the remainder after {i} is {:?}", rem.get_nibble_path());
            ck!(rem.num_nibbles() == n - i, "{what}: the remainder after {i} says {} nibbles", rem.num_nibbles());
            let vis = it.visited_nibbles();
            ck!(vis.get_nibble_path() == path(&want[..i]), "{what}: the path of the visited part after {i} is {:?}", vis.get_nibble_path());
            ck!(vis.num_nibbles() == i, "{what}: the visited part after {i} says {} nibbles", vis.num_nibbles());
            let mut rem = it.remaining_nibbles();
            for j in i..n.min(i + if deep { 64 } else { 3 }) {
                ck!(rem.next().map(u8::from) == Some(want[j]), "{what}: the remainder after {i} goes wrong at {j}");
                ck!(ns(rem.visited_nibbles()) == want[i..=j], "{what}: the part visited of the remainder after {i} is wrong at {j}");
                ck!(rem.get_nibble_path() == path(&want[i..]), "{what}: the path of the remainder after {i} is wrong at {j}");
            }
            st.add("evaluations", 1);
        }
        let g = it.next().map(u8::from);
        ck!(g == want.get(i).copied(), "{what}: nibble {i} comes as {g:?}");
    }
    Ok(())
}
fn hexs(n: &[u8]) -> String {
    n.iter().map(|x| format!("{x:x}")).collect()
}
/// The documented order: by version, then by length, then by nibbles.
fn order(a: &(Version, Vec<u8>), b: &(Version, Vec<u8>)) -> Ordering {
    (a.0, a.1.len(), &a.1).cmp(&(b.0, b.1.len(), &b.1))
}

pub struct C27;
impl C27 {
    /// Every node of version `v`, against the map it holds.
    fn tree<H: SimpleHasher>(w: &World<H>, v: Version, st: &mut Stats) -> R {
        let l = leaves::<H>(w.at(v));
        let rk = root_key(v);
        let Some(n) = w.store.raw_node(&rk) else { return Err(format!("no root node at version {v}")) };
        if let Node::Null = n {
            ck!(l.is_empty(), "a null root for {} pairs", l.len());
            return Ok(());
        }
        C27::node::<H>(&w.store, &rk, n, &l, &[], st).map(|_| ())
    }
    /// Returns the hash.
    fn node<H: SimpleHasher>(s: &MemStore, k: &NodeKey, n: Node, l: &[(K, K)], p: &[u8], st: &mut Stats) -> R<K> {
        one_path(k.nibble_path(), p, false, st)?;
        st.add("evaluations", 1);
        st.add("nodes", 1);
        match n {
            Node::Null => Err(format!("a null node at {k:?}")),
            Node::Leaf(x) => {
                ck!(l.len() == 1 && x.key_hash().0 == l[0].0, "the leaf at {k:?} is of {}", kx(&x.key_hash().0));
                let h = x.hash::<H>();
                ck!(h == hleaf::<H>(&l[0].0, &l[0].1), "the leaf at {k:?} has the wrong hash");
                Ok(h)
            }
            Node::Internal(x) => {
                let h = x.hash::<H>();
                ck!(h == root_of::<H>(l, 4 * p.len()), "the node {k:?} has the wrong hash");
                ck!(x.leaf_count() == l.len(), "the node {k:?} over {} pairs counts {}", l.len(), x.leaf_count());
                // its children, by the keys below it
                let part = |i: u8| -> &[(K, K)] {
                    let a = l.partition_point(|y| nib(&y.0, p.len()) < i);
                    let b = l.partition_point(|y| nib(&y.0, p.len()) <= i);
                    &l[a..b]
                };
                let (mut ex, mut lf) = (0u16, 0u16);
                let mut listed = vec![];
                for i in 0..16u8 {
                    let m = part(i);
                    let c = x.child(i.into());
                    ck!(c.is_some() == !m.is_empty(), "the node {k:?} with {} pairs at {i}: its child there is {c:?}", m.len());
                    let Some(c) = c else { continue };
                    ex |= 1 << i;
                    ck!(c.leaf_count() == m.len(), "child {i} of {k:?} counts {} instead of {}", c.leaf_count(), m.len());
                    ck!(c.is_leaf() == (m.len() == 1), "child {i} of {k:?} over {} pairs: is_leaf is {}", m.len(), c.is_leaf());
                    if c.is_leaf() {
                        lf |= 1 << i;
                    }
                    listed.push((i, c.clone()));
                }
                let sorted: Vec<_> = x.children_sorted().map(|(i, c)| (u8::from(i), c.clone())).collect();
                ck!(sorted == listed, "the sorted children of {k:?} are {sorted:?}");
                let mut un: Vec<_> = x.children_unsorted().map(|(i, c)| (u8::from(i), c.clone())).collect();
                un.sort_by_key(|y| y.0);
                ck!(un == listed, "the children of {k:?} are {un:?}");
                ck!(x.generate_bitmaps() == (ex, lf), "the bitmaps of {k:?} are {:?} instead of {:?}", x.generate_bitmaps(), (ex, lf));
                let child_key = |i: u8| -> NodeKey {
                    let c = x.child(i.into()).unwrap();
                    NodeKey::new(c.version, path(&[p, &[i]].concat()))
                };
                for i in 0..16u8 {
                    // the only leaf in the smallest half, quarter, pair around i, or i itself
                    let mut want = None;
                    for width in [8u8, 4, 2, 1] {
                        let m = (((1u32 << width) - 1) << (i / width * width)) as u16;
                        if ex & m == 0 {
                            break;
                        }
                        if width == 1 || ((ex & m).count_ones() == 1 && lf & m != 0) {
                            want = Some(child_key((ex & m).trailing_zeros() as u8));
                            break;
                        }
                    }
                    let got = x.get_only_child_without_siblings(k, i.into());
                    ck!(got == want, "looking for {i} below {k:?} leads to {got:?} instead of {want:?}");
                    st.add("evaluations", 1);
                }
                for (i, c) in listed {
                    let ck = child_key(i);
                    ck!(c.version <= k.version(), "child {i} of {k:?} is of the later version {}", c.version);
                    ck!(ck.version() == c.version && *ck.nibble_path() == path(&[p, &[i]].concat()), "a new node key does not keep its parts: {ck:?}");
                    let Some(n) = s.raw_node(&ck) else { return Err(format!("child {i} of {k:?} is not in storage")) };
                    let h = C27::node::<H>(s, &ck, n, part(i), &[p, &[i]].concat(), st)?;
                    ck!(h == c.hash, "the node {k:?} records a wrong hash for child {i}");
                }
                Ok(h)
            }
        }
    }
}
impl<H: SimpleHasher + std::fmt::Debug> Oracle<H> for C27 {
    fn commit(&self, w: &World<H>, d: &Done<H>, _c: &Commit, st: &mut Stats) -> R {
        for v in new_versions(d) {
            C27::tree(w, v, st)?;
        }
        // the order of what is written
        for b in &d.batches {
            let mut last: Option<(Version, Vec<u8>)> = None;
            for k in b.node_batch.nodes().keys() {
                let x = (k.version(), ns(k.nibble_path().nibbles()));
                if let Some(l) = &last {
                    ck!(order(l, &x) == Ordering::Less, "the nodes of a batch are out of order: {l:?} before {x:?}");
                }
                last = Some(x);
            }
            let mut last = 0;
            for s in &b.stale_node_index_batch {
                ck!(s.stale_since_version >= last, "stale records are not ordered by version");
                last = s.stale_since_version;
            }
            st.add("evaluations", 2);
        }
        Ok(())
    }
    fn end(&self, w: &World<H>, st: &mut Stats) -> R {
        let n = w.maps.len() as u64;
        for v in w.versions() {
            if n <= 12 || v % 9 == 0 {
                C27::tree(w, v, st)?;
            }
        }
        Ok(())
    }
}
/// All sequences of `n` nibbles out of `of`.
fn all_paths(n: usize, of: &[u8]) -> Vec<Vec<u8>> {
    let mut out = vec![vec![]];
    for _ in 0..n {
        out = out.iter().flat_map(|p: &Vec<u8>| of.iter().map(move |x| [&p[..], &[*x]].concat())).collect();
    }
    out
}
pub fn c27(ctx: &Ctx) -> Info {
    let th = ctx.thorough();
    let all: Vec<u8> = (0..16).collect();
    // every short path
    let top = if th { 5 } else { 4 };
    ctx.family("short-paths", 16 * (top + 1), |i, st| {
        for mut p in all_paths((i / 16).max(1) - 1, &all) {
            if i / 16 > 0 {
                p.insert(0, (i % 16) as u8);
            } else if i > 0 {
                continue;
            }
            one_path(&path(&p), &p, true, st)?;
            st.state(fp(&p));
        }
        Ok(())
    });
    // every length, with patterns of nibbles
    ctx.family("long-paths", 65, |n, st| {
        let mut pats: Vec<Vec<u8>> = vec![];
        for a in 0..16u8 {
            for b in 0..16u8 {
                pats.push((0..n).map(|i| if i % 2 == 0 { a } else { b }).collect());
            }
            for j in 0..n {
                pats.push((0..n).map(|i| if i == j { 15 } else { a }).collect());
                pats.push((0..n).map(|i| if i < j { 0 } else { a }).collect());
            }
        }
        pats.push((0..n).map(|i| (i * 7 % 16) as u8).collect());
        for (j, p) in pats.iter().enumerate() {
            one_path(&path(p), p, j % 16 == 0, st)?;
            st.state(fp(p));
        }
        Ok(())
    });
    // every way of taking items from the two ends
    ctx.family("two-ends", if th { 9 } else { 7 }, |n, st| {
        let plans: Vec<Vec<bool>> = (0..1usize << (4 * n.min(3) + 2)).map(|m| (0..4 * n.min(3) + 2).map(|i| m >> i & 1 == 1).collect()).collect();
        for p in all_paths(n.min(2), &[0, 1, 6, 9, 15]).into_iter().map(|p| [&p[..], &[5, 10, 3, 12, 7, 8, 1][..n - n.min(2)]].concat()) {
            let k = path(&p);
            let want = bits_of(&p);
            for plan in &plans {
                ends("bits", k.bits(), &want, plan)?;
                if n > 0 {
                    let mut it = k.nibbles();
                    it.next();
                    ends("bits after a nibble", it.bits(), &want[4..], plan)?;
                }
                st.add("evaluations", 2);
                st.add("traces", 1);
            }
        }
        Ok(())
    });
    // order, equality and hash of node keys and stale records
    let mut ps: Vec<Vec<u8>> = (0..=2).flat_map(|n| all_paths(n, &all)).collect();
    ps.extend(all_paths(3, &[0, 1, 8, 15]));
    ps.extend((3..=64).flat_map(|n| [vec![0; n], vec![15; n], (0..n).map(|i| if i + 1 == n { 1 } else { 0 }).collect()]));
    let vs: [Version; 6] = [0, 1, 255, 256, 1 << 32, u64::MAX];
    ctx.family("order", ps.len(), |i, st| {
        let a = path(&ps[i]);
        for q in &ps {
            let b = path(q);
            let want = order(&(0, ps[i].clone()), &(0, q.clone()));
            ck!(a.cmp(&b) == want && a.partial_cmp(&b) == Some(want) && (a == b) == (want == Ordering::Equal), "the paths {a:?} and {b:?} are ordered {:?}", a.cmp(&b));
            for x in vs {
                for y in vs {
                    let (ka, kb) = (NodeKey::new(x, a.clone()), NodeKey::new(y, b.clone()));
                    let w = x.cmp(&y).then(want);
                    ck!(ka.cmp(&kb) == w && ka.partial_cmp(&kb) == Some(w) && (ka == kb) == (w == Ordering::Equal), "the node keys {ka:?} and {kb:?} are ordered {:?}", ka.cmp(&kb));
                    ck!(ka != kb || h64(&ka) == h64(&kb), "equal node keys hash differently");
                    let s = |v, k: &NodeKey| StaleNodeIndex { stale_since_version: v, node_key: k.clone() };
                    let (sa, sb) = (s(x, &ka), s(y, &ka));
                    ck!(sa.cmp(&sb) == x.cmp(&y) && (sa == sb) == (x == y), "stale records since {x} and {y} are ordered {:?}", sa.cmp(&sb));
                    let (sa, sb) = (s(x, &kb), s(y, &ka));
                    if x != y {
                        ck!(sa.cmp(&sb) == x.cmp(&y), "stale records since {x} and {y} are ordered {:?}", sa.cmp(&sb));
                    } else {
                        ck!(sa.cmp(&sb) == kb.cmp(&ka) && (sa == sb) == (ka == kb), "stale records of {kb:?} and {ka:?} are ordered {:?}", sa.cmp(&sb));
                    }
                }
            }
            st.add("evaluations", 36);
        }
        Ok(())
    });
    common::<Mix>(ctx, &C27, Load::Medium, How::Sets);
    let us = universes();
    run_dfs::<Sha256>(ctx, &Dfs::new("six", &us[6].keys, 1, 3, 0, How::Sets), &C27);
    bulk_shapes::<Mix>(ctx, &C27);
    grouped_how::<Mix>(ctx, &C27, 1, How::Sets);
    huge::<Mix>(ctx, &C27);
    mc("every node of every version of every explored history is walked and its accessors compared with the map it stands for; every path up to a length and every length, every order of taking from the two ends, and the order of all pairs of keys")
}
