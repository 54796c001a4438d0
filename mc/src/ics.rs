//! C17, C18: ics23 proofs. The verifier is the ics23 crate, under the spec the library publishes
//! and under a copy of it (the one a counterparty would have on record).
use crate::forge::thin;
use crate::shapes::*;
use crate::spec::*;
use crate::util::*;
use crate::world::*;
use crate::{ck, mc, Info};
use ics23::commitment_proof::Proof;
use ics23::{CommitmentProof, ExistenceProof, HashOp, HostFunctionsManager, InnerOp, LeafOp, LengthOp, NonExistenceProof, ProofSpec};
use jmt::SimpleHasher;
use sha2::Sha256;
use std::collections::BTreeMap;
use std::ops::Bound;
use std::sync::OnceLock;

/// SHA-256, except that strings of 32 bytes hash to themselves. With it a key's hash is the key,
/// so that trees of any geometry can be built and the proofs still checked by the real verifier
/// (nodes are never 32 bytes long; told not to hash keys).
#[derive(Debug)]
pub struct Ident {
    h: Sha256,
    b: Vec<u8>,
}
impl SimpleHasher for Ident {
    fn new() -> Self {
        Ident { h: SimpleHasher::new(), b: vec![] }
    }
    fn update(&mut self, data: &[u8]) {
        SimpleHasher::update(&mut self.h, data);
        if self.b.len() <= 32 {
            self.b.extend_from_slice(data);
        }
    }
    fn finalize(self) -> [u8; 32] {
        match <[u8; 32]>::try_from(&self.b[..]) {
            Ok(k) => k,
            Err(_) => SimpleHasher::finalize(self.h),
        }
    }
}

/// Which keys a tree uses: how a key hash's preimage is found, and the key hashing of the spec.
pub trait Keys: SimpleHasher {
    const PREHASH: HashOp;
    fn pre(k: &K) -> Option<Vec<u8>>;
}
impl Keys for Ident {
    const PREHASH: HashOp = HashOp::NoHash;
    fn pre(k: &K) -> Option<Vec<u8>> {
        Some(k.to_vec())
    }
}
impl Keys for Sha256 {
    const PREHASH: HashOp = HashOp::Sha256;
    fn pre(k: &K) -> Option<Vec<u8>> {
        let p = pool();
        p.binary_search_by(|x| x.0.cmp(k)).ok().map(|i| name(p[i].1))
    }
}

const POOL: u32 = 1 << 18;
fn name(i: u32) -> Vec<u8> {
    match i {
        0 => vec![0],
        1 => vec![0xff; 77],
        2 => b"a".to_vec(),
        _ => format!("key/{i}").into_bytes(),
    }
}
/// Many names, sorted by their SHA-256 hash.
pub fn pool() -> &'static [(K, u32)] {
    static P: OnceLock<Vec<(K, u32)>> = OnceLock::new();
    P.get_or_init(|| {
        let mut v: Vec<(K, u32)> = (0..POOL).map(|i| (hval::<Sha256>(&name(i)), i)).collect();
        v.sort();
        v
    })
}

/// The spec on record.
fn recorded() -> ProofSpec {
    ProofSpec {
        leaf_spec: Some(LeafOp {
            hash: HashOp::Sha256.into(),
            prehash_key: HashOp::Sha256.into(),
            prehash_value: HashOp::Sha256.into(),
            length: LengthOp::NoPrefix.into(),
            prefix: b"JMT::LeafNode".to_vec(),
        }),
        inner_spec: Some(ics23::InnerSpec {
            hash: HashOp::Sha256.into(),
            child_order: vec![0, 1],
            min_prefix_length: 16,
            max_prefix_length: 16,
            child_size: 32,
            empty_child: PLACEHOLDER.to_vec(),
        }),
        min_depth: 0,
        max_depth: 64,
        prehash_key_before_comparison: true,
    }
}
fn adapt<H: Keys>(mut s: ProofSpec) -> ProofSpec {
    if H::PREHASH != HashOp::Sha256 {
        if let Some(l) = &mut s.leaf_spec {
            if l.prehash_key == i32::from(HashOp::Sha256) {
                l.prehash_key = H::PREHASH.into();
            }
        }
    }
    s
}
fn adapt_ex<H: Keys>(e: &mut ExistenceProof) {
    if H::PREHASH != HashOp::Sha256 {
        if let Some(l) = &mut e.leaf {
            if l.prehash_key == i32::from(HashOp::Sha256) {
                l.prehash_key = H::PREHASH.into();
            }
        }
    }
}
fn adapt_proof<H: Keys>(p: &mut CommitmentProof) {
    match &mut p.proof {
        Some(Proof::Exist(e)) => adapt_ex::<H>(e),
        Some(Proof::Nonexist(n)) => {
            n.left.iter_mut().for_each(adapt_ex::<H>);
            n.right.iter_mut().for_each(adapt_ex::<H>);
        }
        _ => {}
    }
}

struct C17 {
    specs: Vec<ProofSpec>,
}
impl C17 {
    fn new<H: Keys>() -> Self {
        C17 { specs: vec![adapt::<H>(jmt::ics23_spec()), adapt::<H>(recorded())] }
    }
    fn version<H: Keys>(&self, w: &World<H>, v: u64, st: &mut Stats) -> R {
        let m = w.at(v);
        if m.is_empty() || m.values().any(|x| x.is_empty() || (x.len() == 32 && H::PREHASH != HashOp::Sha256)) {
            return Ok(());
        }
        let t = w.tree();
        let root = e2s("root", t.get_root_hash(v))?.0.to_vec();
        for k in w.probes.iter() {
            let Some(key) = H::pre(k) else { continue };
            let (got, mut proof) = e2s("get_with_ics23_proof", t.get_with_ics23_proof(key.clone(), v))?;
            adapt_proof::<H>(&mut proof);
            let want = m.get(k);
            ck!(got.as_ref() == want, "get_with_ics23_proof({}, {v}) = {got:?}, should be {want:?}", kx(k));
            st.add("evaluations", 1);
            match (&proof.proof, want) {
                (Some(Proof::Exist(e)), Some(val)) => {
                    ck!(e.key == key && e.value == *val, "existence proof of another pair for {}", kx(k));
                    for s in &self.specs {
                        ck!(
                            ics23::verify_membership::<HostFunctionsManager>(&proof, s, &root, &key, val),
                            "existence proof of {} at {v} is not accepted",
                            kx(k)
                        );
                    }
                }
                (Some(Proof::Nonexist(n)), None) => {
                    ck!(n.key == key, "non-existence proof of another key for {}", kx(k));
                    let l = m.range::<K, _>((Bound::Unbounded, Bound::Excluded(k))).next_back();
                    let r = m.range::<K, _>((Bound::Excluded(k), Bound::Unbounded)).next();
                    for (side, want, got) in [("left", l, &n.left), ("right", r, &n.right)] {
                        let want = want.map(|(k, v)| (H::pre(k).unwrap(), v.clone()));
                        let got = got.as_ref().map(|e| (e.key.clone(), e.value.clone()));
                        ck!(
                            got == want,
                            "non-existence proof of {} at {v} names {got:02x?} as the {side} neighbour, which is {want:02x?}",
                            kx(k)
                        );
                    }
                    for s in &self.specs {
                        ck!(
                            ics23::verify_non_membership::<HostFunctionsManager>(&proof, s, &root, &key),
                            "non-existence proof of {} at {v} is not accepted",
                            kx(k)
                        );
                    }
                }
                (p, _) => return Err(format!("wrong kind of proof for {} at {v}: {p:?}", kx(k))),
            }
            st.add("nontrivial", 1);
        }
        Ok(())
    }
}
/// Registers the preimages of the keys a commit writes, as the library's user must.
pub fn register<H: Keys>(w: &World<H>) {
    let mut p = w.store.preimages.borrow_mut();
    for (k, v) in w.hist.iter().flat_map(|c| c.sets.iter().flatten()) {
        if v.is_some() && !p.contains_key(k) {
            p.insert(*k, H::pre(k).expect("a key with a known preimage"));
        }
    }
}
impl<H: Keys> Oracle<H> for C17 {
    fn commit(&self, w: &World<H>, d: &Done<H>, _c: &Commit, st: &mut Stats) -> R {
        register(w);
        for v in crate::basic::new_versions(d) {
            self.version(w, v, st)?;
        }
        Ok(())
    }
    fn end(&self, w: &World<H>, st: &mut Stats) -> R {
        for v in w.versions() {
            self.version(w, v, st)?;
        }
        Ok(())
    }
}

/// Small universes of hashes with known preimages: close ones, spread ones, mixed.
fn sha_universes() -> Vec<Universe> {
    let p = pool();
    let k = |i: usize| p[i].0;
    // the pair with the longest common prefix, and its neighbours
    let (deep, _) = (1..p.len() - 8)
        .map(|i| (i, common_bits(&p[i].0, &p[i + 1].0)))
        .max_by_key(|x| (x.1, std::cmp::Reverse(x.0)))
        .unwrap();
    let n = p.len();
    vec![
        Universe { name: "sha-deep", keys: vec![k(deep - 1), k(deep), k(deep + 1), k(deep + 2)] },
        Universe { name: "sha-first", keys: vec![k(0), k(1), k(2)] },
        Universe { name: "sha-last", keys: vec![k(n - 1), k(n - 2), k(n - 4)] },
        Universe { name: "sha-wide", keys: vec![k(1), k(n / 3), k(n / 2 + 5), k(n - 2)] },
        Universe { name: "sha-mixed", keys: vec![k(5), k(7), k(n / 2 - 2), k(n / 2), k(n / 2 + 3), k(n / 2 + n / 4)] },
    ]
}
/// Registered names next to the keys, and a few more.
fn sha_probes(keys: &[K]) -> Vec<K> {
    let p = pool();
    let mut out: Vec<K> = keys.to_vec();
    for k in keys {
        let i = p.binary_search_by(|x| x.0.cmp(k)).unwrap();
        for d in [1i64, -1, 2, -2, 40, -40, 3000, -3000] {
            let j = i as i64 + d;
            if j >= 0 && (j as usize) < p.len() {
                out.push(p[j as usize].0);
            }
        }
    }
    out.push(p[0].0);
    out.push(p[p.len() - 1].0);
    out.sort();
    out.dedup();
    out
}

pub fn c17(ctx: &Ctx) -> Info {
    let th = ctx.thorough();
    let o = C17::new::<Ident>();
    common::<Ident>(ctx, &o, Load::Heavy, How::Sets);
    let o = C17::new::<Sha256>();
    for u in sha_universes() {
        let n = u.keys.len();
        for (ops, depth) in [(1, if n <= 4 { if th { 4 } else { 3 } } else { 2 }), (2, if th && n <= 4 { 2 } else { 1 })] {
            let mut d = Dfs::new(u.name, &u.keys, ops, depth, 0, How::Sets);
            d.probes = sha_probes(&u.keys);
            run_dfs::<Sha256>(ctx, &d, &o);
        }
    }
    // windows of the pool: runs of consecutive names with gaps
    let p = pool();
    let nw = if th { 4000 } else { 600 };
    ctx.family("sha-windows", nw, |i, st| {
        let start = (p.len() - 64) / nw * i;
        let gap = [1usize, 2, 3, 5][i % 4];
        let keys: Vec<K> = (0..1 + i % 9).map(|j| p[start + 1 + j * gap].0).collect();
        let mut pr: Vec<K> = (0..=keys.len() * gap + 1).map(|j| p[start + j].0).collect();
        pr.push(p[0].0);
        pr.push(p[p.len() - 1].0);
        run_scen::<Sha256>(Scen { first: i as u64 % 3, probes: pr, commits: template(i % TEMPLATES, &keys, &[], How::Sets) }, &o, st)
    });
    // children of the root, and of a deeper node, by their hashes
    let ms = masks(th);
    ctx.family("sha-fans", ms.len() * 2, |i, st| {
        let m = ms[i / 2];
        let pre = if i % 2 == 0 { 0 } else { 1 + (i / 2) % 3 };
        // the names whose hash starts with the chosen nibbles
        let mut base = [0u8; 32];
        for j in 0..pre {
            base = set_nib(&base, j, [7u8, 0, 15][(i / 2 + j) % 3]);
        }
        let (mut keys, mut pr) = (vec![], vec![]);
        for n in 0..16u8 {
            let lo = p.partition_point(|x| x.0 < set_nib(&base, pre, n));
            pr.push(p[lo].0);
            pr.push(p[lo + 3].0);
            if m >> n & 1 == 1 {
                keys.push(p[lo + 1].0);
                if (i / 2 + n as usize) % 3 == 0 {
                    keys.push(p[lo + 2].0);
                }
            }
        }
        pr.extend(keys.iter().copied());
        let c = vec![one(puts(&keys, va)), one(vec![(keys[i % keys.len()], None)])];
        run_scen::<Sha256>(Scen { first: 0, probes: pr, commits: c }, &o, st)
    });
    // values of every length
    let lens: Vec<usize> = (1..140).chain([255, 256, 1000, 65536]).collect();
    ctx.family("sha-value-lengths", lens.len(), |i, st| {
        let u = &sha_universes()[i % 5].keys;
        let val: V = (0..lens[i]).map(|x| x as u8 ^ 0x5a).collect();
        let c = vec![one(puts(u, |_| val.clone())), one(vec![(u[0], None), (u[1], Some(vec![0]))])];
        run_scen::<Sha256>(Scen { first: 0, probes: sha_probes(u), commits: c }, &o, st)
    });
    mc("every history over small universes of keys and every tree shape of the sweeps; every registered key on, between and around the tree's keys is asked for; the ics23 crate's verifier judges each proof")
}

// ---------------------------------------------------------------- C18

fn leaf_op<H: Keys>() -> LeafOp {
    adapt::<H>(recorded()).leaf_spec.unwrap()
}
/// The genuine existence proof.
fn genuine<H: Keys>(m: &Map, k: &K) -> ExistenceProof {
    let p = spec_proof::<H>(&leaves::<H>(m), k);
    let n = p.sibs.len();
    let path = p
        .sibs
        .iter()
        .enumerate()
        .map(|(i, s)| {
            let s = s.hash::<H>();
            let (prefix, suffix) = if bit(k, n - 1 - i) {
                ([b"JMT::IntrnalNode".as_slice(), &s].concat(), vec![])
            } else {
                (b"JMT::IntrnalNode".to_vec(), s.to_vec())
            };
            InnerOp { hash: HashOp::Sha256.into(), prefix, suffix }
        })
        .collect();
    ExistenceProof { key: H::pre(k).unwrap(), value: m[k].clone(), leaf: Some(leaf_op::<H>()), path }
}

/// All single edits of an existence proof.
fn edits(e: &ExistenceProof, steps: &[InnerOp], th: bool) -> Vec<ExistenceProof> {
    let mut out = vec![];
    let n = e.path.len();
    let at: Vec<usize> = if n <= 10 { (0..=n).collect() } else { vec![0, 1, n / 2, n - 2, n - 1, n] };
    let mut push = |f: &dyn Fn(&mut ExistenceProof)| {
        let mut c = e.clone();
        f(&mut c);
        out.push(c);
    };
    for &i in &at {
        if i < n {
            push(&|c| {
                c.path.remove(i);
            });
            push(&|c| c.path.insert(i, c.path[i].clone()));
            // the other side
            push(&|c| {
                let s = &mut c.path[i];
                if s.suffix.is_empty() && s.prefix.len() == 48 {
                    s.suffix = s.prefix.split_off(16);
                } else {
                    let x = std::mem::take(&mut s.suffix);
                    s.prefix.extend(x);
                }
            });
            // placeholder on either side
            push(&|c| c.path[i].suffix = PLACEHOLDER.to_vec());
            push(&|c| {
                c.path[i].prefix.truncate(16);
                c.path[i].prefix.extend(PLACEHOLDER);
                c.path[i].suffix = vec![];
            });
            // both sides
            push(&|c| {
                c.path[i].prefix.truncate(16);
                c.path[i].prefix.extend(PLACEHOLDER);
                c.path[i].suffix = PLACEHOLDER.to_vec();
            });
            push(&|c| c.path[i].prefix.truncate(16));
            push(&|c| c.path[i].suffix.clear());
            for cut in [0, 1, 15, 17, 32, 47] {
                push(&|c| c.path[i].prefix.truncate(cut));
            }
            push(&|c| c.path[i].prefix.push(0));
            push(&|c| c.path[i].suffix.push(0));
            push(&|c| c.path[i].prefix = b"JMT::LeafNode".to_vec());
            push(&|c| c.path[i].hash = HashOp::NoHash.into());
            push(&|c| c.path[i].hash = HashOp::Sha512.into());
            push(&|c| c.path[i].hash = HashOp::Sha512256.into());
            push(&|c| {
                c.path.drain(..i);
            });
            push(&|c| c.path.truncate(i));
            for s in steps {
                push(&|c| c.path[i] = s.clone());
            }
            for &j in &at {
                if j > i && j < n {
                    push(&|c| c.path.swap(i, j));
                }
            }
        }
        for s in steps {
            push(&|c| c.path.insert(i, s.clone()));
        }
    }
    // the leaf operation
    let leaf = |f: &dyn Fn(&mut LeafOp)| {
        let mut c = e.clone();
        f(c.leaf.as_mut().unwrap());
        c
    };
    let mut more = vec![];
    for op in [HashOp::NoHash, HashOp::Sha256, HashOp::Sha512, HashOp::Ripemd160] {
        more.push(leaf(&|l| l.hash = op.into()));
        more.push(leaf(&|l| l.prehash_key = op.into()));
        more.push(leaf(&|l| l.prehash_value = op.into()));
        if th {
            for op2 in [HashOp::NoHash, HashOp::Sha256] {
                more.push(leaf(&|l| {
                    l.prehash_key = op.into();
                    l.prehash_value = op2.into();
                }));
            }
        }
    }
    for op in [LengthOp::VarProto, LengthOp::Require32Bytes, LengthOp::Fixed32Big] {
        more.push(leaf(&|l| l.length = op.into()));
    }
    for pre in [&b""[..], b"JMT::IntrnalNode", b"JMT::LeafNod", b"JMT::LeafNode\0", b"J"] {
        more.push(leaf(&|l| l.prefix = pre.to_vec()));
    }
    let mut c = e.clone();
    c.leaf = None;
    more.push(c);
    drop(push);
    out.extend(more);
    out
}

fn accept(f: impl FnOnce() -> bool) -> bool {
    // the ics23 crate panics on some malformed pairs of paths; that is not acceptance
    no_panic(f).unwrap_or(false)
}
fn exist(e: &ExistenceProof) -> CommitmentProof {
    CommitmentProof { proof: Some(Proof::Exist(e.clone())) }
}

/// Attacks on a tree given by its contents.
fn attack<H: Keys>(m: &Map, foreign: &Map, probes: &[K], th: bool, st: &mut Stats) -> R {
    let w = build::<H>(m, 0)?;
    let root = e2s("root", w.tree().get_root_hash(0))?.0.to_vec();
    let spec = adapt::<H>(jmt::ics23_spec());
    st.add("traces", 1);
    st.add("transitions", 1);
    st.state(fp(m));
    let keys: Vec<K> = m.keys().copied().collect();
    let mut base: Vec<ExistenceProof> = keys.iter().map(|k| genuine::<H>(m, k)).collect();
    let own = base.len();
    base.extend(foreign.keys().map(|k| genuine::<H>(foreign, k)));
    let mut steps: Vec<InnerOp> = base.iter().flat_map(|e| e.path.clone()).collect();
    steps.sort_by(|a, b| (&a.prefix, &a.suffix).cmp(&(&b.prefix, &b.suffix)));
    steps.dedup();
    let steps = thin(steps, if th { 24 } else { 8 });
    let mut edited: Vec<ExistenceProof> = vec![];
    for e in &base {
        edited.extend(edits(e, &steps, th));
    }
    // an internal node of the tree presented as a leaf
    for e in &base[..own] {
        for i in 0..e.path.len() {
            let s = &e.path[i];
            // children hashes of the node above step i
            let sub: Vec<u8> = {
                let sub = ExistenceProof { path: e.path[..i].to_vec(), ..e.clone() };
                match ics23::calculate_existence_root::<HostFunctionsManager>(&sub) {
                    Ok(x) => x,
                    Err(_) => continue,
                }
            };
            let (l, r) = if s.suffix.is_empty() { (s.prefix[16..].to_vec(), sub) } else { (sub, s.suffix.clone()) };
            for pre in [&b"JMT::IntrnalNode"[..], b"JMT::LeafNode"] {
                for ph in [HashOp::NoHash, HashOp::Sha256] {
                    edited.push(ExistenceProof {
                        key: l.clone(),
                        value: r.clone(),
                        leaf: Some(LeafOp { prefix: pre.to_vec(), prehash_key: ph.into(), prehash_value: ph.into(), ..leaf_op::<H>() }),
                        path: e.path[i + 1..].to_vec(),
                    });
                }
            }
        }
    }
    // false existence
    let truth: BTreeMap<Vec<u8>, &V> = m.iter().map(|(k, v)| (H::pre(k).unwrap(), v)).collect();
    let mut names: Vec<Vec<u8>> = probes.iter().filter_map(H::pre).collect();
    names.sort();
    names.dedup();
    let mut vals: Vec<V> = m.values().take(3).cloned().collect();
    vals.push(b"forged".to_vec());
    vals.extend(m.values().take(1).map(|v| hval::<Sha256>(v).to_vec()));
    vals.extend(foreign.values().take(1).cloned());
    vals.dedup();
    for e in base.iter().chain(&edited) {
        // as it is, and relabelled
        let mut claims = vec![(e.key.clone(), e.value.clone())];
        let names = thin(names.clone(), if th { 12 } else { 5 });
        for n in &names {
            for v in &vals {
                claims.push((n.clone(), v.clone()));
            }
        }
        for (n, v) in claims {
            if truth.get(&n) == Some(&&v) {
                continue;
            }
            let p = exist(&ExistenceProof { key: n.clone(), value: v.clone(), ..e.clone() });
            st.add("evaluations", 1);
            if accept(|| ics23::verify_membership::<HostFunctionsManager>(&p, &spec, &root, &n, &v)) {
                return Err(format!("false existence of {n:02x?} = {v:02x?} accepted in the tree {m:02x?}: {p:?}"));
            }
            // the proof of one pair presented for another
            let p = exist(e);
            if (&e.key, &e.value) != (&n, &v) && accept(|| ics23::verify_membership::<HostFunctionsManager>(&p, &spec, &root, &n, &v)) {
                return Err(format!("proof of another pair accepted for {n:02x?} = {v:02x?} in the tree {m:02x?}: {p:?}"));
            }
        }
    }
    // false non-existence: every pair of sides, both genuine, or one of them altered
    let sides = |v: Vec<ExistenceProof>| -> Vec<Option<ExistenceProof>> { std::iter::once(None).chain(v.into_iter().map(Some)).collect() };
    let g = sides(base.clone());
    let mut altered = edited.clone();
    // genuine paths under the name of the key itself or of others
    for e in base.iter().take(4) {
        for n in names.iter().take(6) {
            altered.push(ExistenceProof { key: n.clone(), ..e.clone() });
        }
    }
    let e = sides(thin(altered, if th { 4000 } else { 160 }));
    for k in &keys {
        let key = H::pre(k).unwrap();
        let mut try_pair = |l: &Option<ExistenceProof>, r: &Option<ExistenceProof>| -> R {
            let n = NonExistenceProof { key: key.clone(), left: l.clone(), right: r.clone() };
            let p = CommitmentProof { proof: Some(Proof::Nonexist(n)) };
            st.add("evaluations", 1);
            ck!(
                !accept(|| ics23::verify_non_membership::<HostFunctionsManager>(&p, &spec, &root, &key)),
                "false non-existence of {} accepted in the tree {m:02x?}: {p:?}",
                kx(k)
            );
            Ok(())
        };
        for l in &g {
            for r in &g {
                try_pair(l, r)?;
            }
            for r in &e {
                try_pair(l, r)?;
                try_pair(r, l)?;
            }
        }
    }
    Ok(())
}

fn foreign_tree(m: &Map) -> Map {
    let mut o = m.clone();
    if let Some(k) = m.keys().next().copied() {
        o.remove(&k);
        o.insert(flip(&k, 250), va(9));
    }
    o.insert([0x11; 32], va(8));
    o
}

pub fn c18(ctx: &Ctx) -> Info {
    let th = ctx.thorough();
    let trees: Vec<Map> = small_trees().into_iter().filter(|m| !m.is_empty()).collect();
    let trees: Vec<Map> = trees.into_iter().enumerate().filter(|(i, m)| th || m.len() <= 3 || i % 3 == 0).map(|(_, m)| m).collect();
    ctx.family("trees", trees.len(), |i, st| {
        let m = &trees[i];
        let keys: Vec<K> = m.keys().copied().collect();
        attack::<Ident>(m, &foreign_tree(m), &probes(&keys, keys.len() + 6), th, st)
    });
    let mut sha: Vec<Map> = vec![];
    for u in sha_universes() {
        for s in 1..1usize << u.keys.len() {
            let m: Map = u.keys.iter().enumerate().filter(|(i, _)| s >> i & 1 == 1).map(|(i, k)| (*k, va(i))).collect();
            if (th || m.len() <= 3 || s % 3 == 0) && !sha.contains(&m) {
                sha.push(m);
            }
        }
    }
    ctx.family("sha-trees", sha.len(), |i, st| {
        let m = &sha[i];
        let keys: Vec<K> = m.keys().copied().collect();
        let mut f = m.clone();
        let first = keys[0];
        f.insert(first, vb(2));
        f.insert(pool()[1000].0, va(3));
        let pr = sha_probes(&keys);
        attack::<Sha256>(m, &f, &pr, th, st)
    });
    // deep pairs: a false absence needs a placeholder or a wrong side at one of many levels
    let ds: Vec<usize> = if th { (0..256).collect() } else { vec![0, 1, 2, 3, 4, 5, 7, 8, 15, 31, 63, 64, 65, 127, 128, 254, 255] };
    ctx.family("deep-pairs", ds.len() * 2, |i, st| {
        let b = bases()[if i % 2 == 0 { 3 } else { 1 }];
        let d = ds[i / 2];
        let m: Map = [(b, va(0)), (flip(&b, d), va(1)), (flip(&b, d.saturating_sub(3)), va(2))].into_iter().collect();
        let keys: Vec<K> = m.keys().copied().collect();
        attack::<Ident>(&m, &foreign_tree(&m), &probes(&keys, 8), false, st)
    });
    // fans: false absence from every pair of genuine neighbours
    let ms = masks(false);
    ctx.family("fans", ms.len(), |i, st| {
        let keys = fan(&bases()[3], i % 3, ms[i], [0, 0x1111, 0xffff][i % 3]);
        let m: Map = keys.iter().enumerate().map(|(i, k)| (*k, va(i))).collect();
        let w = build::<Ident>(&m, 0)?;
        let root = e2s("root", w.tree().get_root_hash(0))?.0.to_vec();
        let spec = adapt::<Ident>(jmt::ics23_spec());
        st.add("traces", 1);
        st.add("transitions", 1);
        st.state(fp(&m));
        let mut g: Vec<Option<ExistenceProof>> = vec![None];
        g.extend(m.keys().map(|k| Some(genuine::<Ident>(&m, k))));
        for (x, k) in m.keys().enumerate() {
            // all ordered pairs around the key
            for l in g[..=x].iter() {
                for r in std::iter::once(&g[0]).chain(&g[x + 2..]) {
                    let n = NonExistenceProof { key: k.to_vec(), left: l.clone(), right: r.clone() };
                    let p = CommitmentProof { proof: Some(Proof::Nonexist(n)) };
                    st.add("evaluations", 1);
                    ck!(
                        !accept(|| ics23::verify_non_membership::<HostFunctionsManager>(&p, &spec, &root, k)),
                        "false non-existence of {} accepted in the tree {m:02x?}: {p:?}",
                        kx(k)
                    );
                }
            }
        }
        Ok(())
    });
    mc("on every small tree: every existence proof made by one edit of a genuine one (of this or another tree) and relabelled to every false pair, and every non-existence proof made of two genuine or one genuine and one edited side, for every present key")
}
