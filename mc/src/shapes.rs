//! The explored spaces: small alphabets of commits for exhaustive depth-first search over
//! histories, and sweeps over tree shapes with fixed history templates.
use crate::ck;
use crate::spec::*;
use crate::util::*;
use crate::world::*;
use jmt::{SimpleHasher, Version};
use std::collections::BTreeSet;
use std::rc::Rc;

/// A check of one property, run after every commit and at the end of every explored history.
pub trait Oracle<H: SimpleHasher>: Sync {
    fn commit(&self, w: &World<H>, d: &Done<H>, c: &Commit, st: &mut Stats) -> R;
    fn end(&self, _w: &World<H>, _st: &mut Stats) -> R {
        Ok(())
    }
}

pub fn bases() -> Vec<K> {
    let mut mixed = [0u8; 32];
    for (i, b) in mixed.iter_mut().enumerate() {
        *b = (i as u8).wrapping_mul(0x9d) ^ 0x35;
    }
    vec![[0u8; 32], [0xff; 32], [0xa5; 32], mixed]
}

/// Absent and present keys worth asking for, around a key set.
pub fn probes(keys: &[K], limit: usize) -> Vec<K> {
    let set: BTreeSet<K> = keys.iter().copied().collect();
    let mut out: Vec<K> = set.iter().copied().collect();
    let mut seen: BTreeSet<K> = set.clone();
    let mut push = |k: K, out: &mut Vec<K>| {
        if seen.insert(k) {
            out.push(k);
        }
    };
    push([0; 32], &mut out);
    push([0xff; 32], &mut out);
    let mut div: BTreeSet<usize> = BTreeSet::new();
    let ks: Vec<K> = set.iter().copied().collect();
    for w in ks.windows(2) {
        div.insert(common_bits(&w[0], &w[1]));
    }
    for k in &ks {
        for d in &div {
            for b in [*d, d + 1, d.saturating_sub(1), (d | 3) + 1] {
                if b < 256 {
                    push(flip(k, b), &mut out);
                }
            }
        }
        for b in [0, 3, 4, 254, 255] {
            push(flip(k, b), &mut out);
        }
    }
    out.truncate(limit.max(ks.len() + 2));
    out
}

/// Successor / predecessor of a key as a 256-bit number.
pub fn succ(k: &K) -> Option<K> {
    let mut k = *k;
    for b in k.iter_mut().rev() {
        let (n, o) = b.overflowing_add(1);
        *b = n;
        if !o {
            return Some(k);
        }
    }
    None
}
pub fn pred(k: &K) -> Option<K> {
    let mut k = *k;
    for b in k.iter_mut().rev() {
        let (n, o) = b.overflowing_sub(1);
        *b = n;
        if !o {
            return Some(k);
        }
    }
    None
}

pub struct Universe {
    pub name: &'static str,
    pub keys: Vec<K>,
}

/// Small key universes with different internal geometry.
pub fn universes() -> Vec<Universe> {
    let z = [0u8; 32];
    let f = [0xffu8; 32];
    let m = bases()[3];
    vec![
        // two keys in one nibble group, one sharing a longer prefix
        Universe {
            name: "near",
            keys: vec![set_nib(&z, 0, 2), set_nib(&set_nib(&z, 0, 2), 1, 1), set_nib(&z, 0, 3)],
        },
        // all under a common 3-nibble prefix, split inside one nibble and across nibbles
        Universe {
            name: "prefixed",
            keys: vec![m, flip(&m, 15), flip(&m, 17)],
        },
        // last bits
        Universe {
            name: "deep",
            keys: vec![flip(&f, 255), f, flip(&f, 252)],
        },
        // children 0, 7, 8, 15 of the root
        Universe {
            name: "wide",
            keys: vec![set_nib(&z, 0, 0), set_nib(&z, 0, 7), set_nib(&z, 0, 8), set_nib(&z, 0, 15)],
        },
        // a chain: divergences in successive nibbles
        Universe {
            name: "chain",
            keys: vec![z, flip(&z, 2), flip(&z, 5), flip(&z, 11)],
        },
        Universe {
            name: "mixed5",
            keys: vec![
                set_nib(&m, 0, 1),
                set_nib(&m, 0, 9),
                flip(&set_nib(&m, 0, 9), 6),
                flip(&set_nib(&m, 0, 9), 13),
                set_nib(&m, 0, 14),
            ],
        },
        Universe {
            name: "six",
            keys: vec![
                z,
                flip(&z, 1),
                flip(&z, 7),
                flip(&z, 8),
                flip(&z, 9),
                f,
            ],
        },
    ]
}

pub fn va(i: usize) -> V {
    if i < 250 {
        vec![i as u8 + 1, 0xaa]
    } else {
        vec![i as u8, (i >> 8) as u8, 0xaa]
    }
}
pub fn vb(i: usize) -> V {
    {
        let mut v = vec![(i % 250) as u8 + 1; 40];
        v[39] = (i / 250) as u8;
        v
    }
}

/// Every single update over the keys: two values (the second may be the empty string) and delete.
pub fn singles(keys: &[K], empty_b: bool) -> Vec<(K, Option<V>)> {
    let mut out = vec![];
    for (i, k) in keys.iter().enumerate() {
        out.push((*k, Some(va(i))));
        out.push((*k, Some(if empty_b { vec![] } else { vb(i) })));
        out.push((*k, None));
    }
    out
}

/// Commits of one version with 0..=n updates, every ordered list of single updates.
pub fn alphabet(keys: &[K], max_ops: usize, empty_b: bool, how: How) -> Vec<Rc<Commit>> {
    let s = singles(keys, empty_b);
    let mut lists: Vec<Ups> = vec![vec![]];
    let mut layer: Vec<Ups> = vec![vec![]];
    for _ in 0..max_ops {
        let mut nl = vec![];
        for l in &layer {
            for x in &s {
                let mut l2 = l.clone();
                l2.push(x.clone());
                nl.push(l2);
            }
        }
        lists.extend(nl.iter().cloned());
        layer = nl;
    }
    lists
        .into_iter()
        .map(|l| {
            Rc::new(Commit {
                sets: vec![l],
                how,
            })
        })
        .collect()
}

pub struct Dfs {
    pub name: String,
    pub keys: Vec<K>,
    pub probes: Vec<K>,
    pub max_ops: usize,
    pub empty_b: bool,
    pub depth: usize,
    pub first: Version,
    pub how: How,
}
impl Dfs {
    pub fn new(name: &str, keys: &[K], max_ops: usize, depth: usize, first: Version, how: How) -> Dfs {
        Dfs {
            name: format!("dfs-{name}-ops{max_ops}-depth{depth}-v{first}-{how:?}"),
            keys: keys.to_vec(),
            probes: probes(keys, 3 * keys.len() + 8),
            max_ops,
            empty_b: false,
            depth,
            first,
            how,
        }
    }
    pub fn empty_values(mut self) -> Self {
        self.empty_b = true;
        self.name.push_str("-emptyval");
        self
    }
}

/// Every history of `depth` commits over the alphabet; each history's every prefix is checked once.
pub fn run_dfs<H: SimpleHasher>(ctx: &Ctx, d: &Dfs, o: &impl Oracle<H>) {
    let a = alphabet(&d.keys, d.max_ops, d.empty_b, d.how).len();
    let pre = d.depth.min(if a < 40 { 2 } else { 1 });
    let n = a.pow(pre as u32);
    ctx.family(&d.name, n, |case, st| {
        let alpha = alphabet(&d.keys, d.max_ops, d.empty_b, d.how);
        let mut w = World::<H>::new(d.first, Rc::new(d.probes.clone()));
        let mut digits = vec![];
        let mut x = case;
        for _ in 0..pre {
            digits.push(x % a);
            x /= a;
        }
        digits.reverse();
        st.add("traces", a.pow((d.depth - pre) as u32) as u64);
        for (i, g) in digits.iter().enumerate() {
            let c = &alpha[*g];
            let done = w.commit(c)?;
            if digits[i + 1..].iter().all(|x| *x == 0) {
                st.add("transitions", 1);
                st.state(w.state_fp());
                o.commit(&w, &done, c, st)?;
                if i + 1 == d.depth {
                    o.end(&w, st)?;
                }
            }
        }
        rec::<H>(&mut w, &alpha, d.depth - pre, o, st)
    });
    ctx.sample(|| {
        let alpha = alphabet(&d.keys, d.max_ops, d.empty_b, d.how);
        format!(
            "{}: all histories of {} commits over {} commits such as {:?}",
            d.name,
            d.depth,
            alpha.len(),
            alpha[alpha.len() - 1]
        )
    });
}
fn rec<H: SimpleHasher>(
    w: &mut World<H>,
    alpha: &[Rc<Commit>],
    left: usize,
    o: &impl Oracle<H>,
    st: &mut Stats,
) -> R {
    if left == 0 {
        return Ok(());
    }
    for c in alpha {
        let done = w.commit(c)?;
        st.add("transitions", 1);
        if left > 1 || alpha.len() < 200 {
            st.state(w.state_fp());
        }
        o.commit(w, &done, c, st)?;
        if left == 1 {
            o.end(w, st)?;
        } else {
            rec(w, alpha, left - 1, o, st)?;
        }
        w.undo(&done);
    }
    Ok(())
}

pub struct Scen {
    pub first: Version,
    pub probes: Vec<K>,
    pub commits: Vec<Commit>,
}

pub fn run_scen<H: SimpleHasher>(s: Scen, o: &impl Oracle<H>, st: &mut Stats) -> R {
    let mut w = World::<H>::new(s.first, Rc::new(s.probes));
    st.add("traces", 1);
    for c in s.commits {
        let c = Rc::new(c);
        let done = w.commit(&c)?;
        st.add("transitions", 1);
        st.state(w.state_fp());
        o.commit(&w, &done, &c, st)?;
    }
    o.end(&w, st)
}

pub fn puts(keys: &[K], f: impl Fn(usize) -> V) -> Ups {
    keys.iter().enumerate().map(|(i, k)| (*k, Some(f(i)))).collect()
}

pub const TEMPLATES: usize = 5;
/// History templates over a key set.
pub fn template(t: usize, keys: &[K], absent: &[K], how: How) -> Vec<Commit> {
    let n = keys.len();
    let c = |sets: Vec<Ups>| Commit { sets, how };
    match t {
        // all at once
        0 => vec![c(vec![puts(keys, va)])],
        // one by one, overwrite, delete in insertion order down to empty
        1 => {
            let mut v: Vec<Commit> = keys
                .iter()
                .enumerate()
                .map(|(i, k)| c(vec![vec![(*k, Some(va(i)))]]))
                .collect();
            v.push(c(vec![vec![(keys[0], Some(vb(0)))]]));
            v.push(c(vec![vec![]]));
            v.extend(keys.iter().map(|k| c(vec![vec![(*k, None)]])));
            v
        }
        // all at once in reverse, delete from the end, reinsert
        2 => {
            let mut p = puts(keys, vb);
            p.reverse();
            let mut v = vec![c(vec![p])];
            for k in keys.iter().rev() {
                v.push(c(vec![vec![(*k, None)]]));
            }
            v.push(c(vec![puts(&keys[..n.min(2)], va)]));
            v.push(c(vec![puts(keys, vb)]));
            v
        }
        // several versions in one call, with no-ops, then more calls
        3 => {
            let mut last: Ups = vec![(keys[0], Some(vec![]))];
            last.push((keys[n - 1], Some(vb(n - 1))));
            let mut delall: Ups = keys.iter().map(|k| (*k, None)).collect();
            delall.reverse();
            vec![
                c(vec![
                    puts(keys, va),
                    vec![(keys[0], None)],
                    vec![],
                    last,
                    vec![(keys[n / 2], None), (keys[n / 2], Some(va(7)))],
                ]),
                c(vec![vec![], vec![(keys[n - 1], None)]]),
                c(vec![delall, vec![], puts(keys, va)]),
            ]
        }
        // churn inside one version; deletions of absent keys
        _ => {
            let mut u: Ups = vec![
                (keys[0], Some(va(0))),
                (keys[0], None),
                (keys[0], Some(vb(0))),
            ];
            for (i, k) in keys.iter().enumerate().skip(1) {
                u.push((*k, Some(va(i))));
                u.push((keys[0], None));
                u.push((keys[0], Some(vb(0))));
            }
            u.push((keys[n - 1], None));
            u.push((keys[n - 1], Some(vec![])));
            let mut v = vec![c(vec![u])];
            for a in absent.iter().filter(|a| !keys.contains(a)).take(4) {
                v.push(c(vec![vec![(*a, None)]]));
            }
            v.push(c(vec![vec![
                (keys[0], None),
                (keys[n - 1], None),
                (keys[0], Some(va(3))),
            ]]));
            v
        }
    }
}

pub fn scen_of(keys: &[K], t: usize, how: How, first: Version, probe_limit: usize) -> Scen {
    let pr = probes(keys, probe_limit);
    Scen {
        first,
        commits: template(t, keys, &pr, how),
        probes: pr,
    }
}

/// Divergence depths worth combining.
pub fn depths(thorough: bool) -> Vec<usize> {
    if thorough {
        (0..256).collect()
    } else {
        (0..14)
            .chain([31, 32, 33, 63, 64, 65, 66, 67, 68, 123, 124, 125, 126, 127, 128, 129])
            .chain(244..256)
            .collect()
    }
}

/// Interesting child-existence masks of one 16-way node.
pub fn masks(thorough: bool) -> Vec<u16> {
    if thorough {
        return (1..=0xffffu32).map(|x| x as u16).collect();
    }
    let mut s: BTreeSet<u16> = BTreeSet::new();
    for a in 0..16u16 {
        for b in 0..16u16 {
            for c in 0..16u16 {
                let m = (1 << a) | (1 << b) | (1 << c);
                s.insert(m);
                if a <= 1 || c == 15 {
                    s.insert(!m);
                }
            }
            for len in 1..=16u16 {
                // contiguous ranges
                let r = (((1u32 << len) - 1) << a) as u16;
                s.insert(r);
            }
        }
    }
    s.insert(0xffff);
    s.insert(0x5555);
    s.insert(0xaaaa);
    s.insert(0x8421);
    s.remove(&0);
    s.into_iter().collect()
}

/// Keys whose tree has one internal node at nibble depth `p` with the children of `mask`;
/// children in `twos` are internal nodes with two leaves.
pub fn fan(base: &K, p: usize, mask: u16, twos: u16) -> Vec<K> {
    let mut v = vec![];
    for n in 0..16u8 {
        if mask >> n & 1 == 1 {
            let k = set_nib(base, p, n);
            v.push(k);
            if twos >> n & 1 == 1 && p < 63 {
                v.push(flip(&k, 4 * p + 4 + (n as usize % 4)));
            }
        }
    }
    v
}

/// 257 keys, one branching off at every depth.
pub fn comb(base: &K, n: usize) -> Vec<K> {
    let mut v = vec![*base];
    for i in 0..n.min(256) {
        v.push(flip(base, i));
    }
    v
}
pub fn dense() -> Vec<K> {
    let m = bases()[3];
    (0..=255u8)
        .map(|b| {
            let mut k = m;
            k[0] = b;
            k
        })
        .collect()
}
pub fn many(n: usize) -> Vec<K> {
    (0..n as u64).map(|i| hval::<sha2::Sha256>(&i.to_be_bytes())).collect()
}

/// Trees whose leaf counts need one, two and three bytes: how many leaves they start from; the
/// history then removes and adds back a few. Each once spread out, and once below one child.
pub const HUGE: [usize; 6] = [255, 256, 257, 65535, 65536, 65537];
pub fn huge<H: SimpleHasher>(ctx: &Ctx, o: &impl Oracle<H>) {
    ctx.family("huge", 2 * HUGE.len(), |i, st| {
        let skewed = i >= HUGE.len();
        let n = HUGE[i % HUGE.len()] + if skewed { 4 } else { 0 };
        let mut keys = many(n + 2);
        if skewed {
            // nearly all of them below one child of the root
            for (j, k) in keys.iter_mut().enumerate() {
                if j < 20 || j >= 24 {
                    *k = set_nib(k, 0, 7);
                }
            }
        }
        let pr: Vec<K> = keys.iter().step_by(n / 40 + 1).copied().collect();
        let some = &keys[5..8];
        let commits = vec![
            one(puts(&keys[..n], va)),
            one(some.iter().map(|k| (*k, None)).collect()),
            one(puts(some, vb).into_iter().chain([(keys[n], Some(vec![1]))]).collect()),
            one(vec![(keys[n + 1], Some(vec![2])), (keys[0], None), (keys[1], None), (keys[2], Some(vec![]))]),
        ];
        run_scen::<H>(Scen { first: 0, probes: pr, commits }, o, st)
    });
}

pub const FIRSTS: [Version; 16] = [
    0,
    1,
    2,
    9,
    127,
    128,
    255,
    256,
    65535,
    65536,
    (1 << 32) - 2,
    (1 << 32) - 1,
    1 << 32,
    1 << 53,
    (1 << 63) - 2,
    u64::MAX - 60,
];

/// How much of the common spaces a check can afford.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
pub enum Load {
    Light,
    Medium,
    Heavy,
}

/// The common spaces, all with the same oracle.
pub fn common<H: SimpleHasher>(ctx: &Ctx, o: &impl Oracle<H>, load: Load, how: How) {
    dfs_all::<H>(ctx, o, load, how);
    transitions::<H>(ctx, o, how);
    shapes_all::<H>(ctx, o, load, how);
}

pub fn dfs_all<H: SimpleHasher>(ctx: &Ctx, o: &impl Oracle<H>, load: Load, how: How) {
    let us = universes();
    let u = |n: &str| us.iter().find(|u| u.name == n).unwrap().keys.clone();
    let th = ctx.thorough();
    let mut l: Vec<Dfs> = vec![];
    // batches of up to two updates
    let d2 = match (load, th) {
        (Load::Light, false) => 2,
        (Load::Medium, false) | (Load::Heavy, false) => 2,
        (Load::Heavy, true) => 2,
        _ => 3,
    };
    for n in ["near", "prefixed", "wide", "chain"] {
        let d = if load == Load::Light && !th && n == "near" { 3 } else { d2 };
        let d = if n == "wide" || n == "chain" { 2 } else { d };
        l.push(Dfs::new(n, &u(n), 2, d, 0, how));
    }
    l.push(Dfs::new("near", &u("near"), 2, 2, 1, how).empty_values());
    l.push(Dfs::new("deep", &u("deep"), 2, 2, 7, how));
    // single updates, longer histories
    let d1 = match (load, th) {
        (Load::Light, false) => 5,
        (Load::Light, true) => 6,
        (Load::Medium, false) => 4,
        (Load::Medium, true) => 5,
        (Load::Heavy, false) => 3,
        (Load::Heavy, true) => 4,
    };
    l.push(Dfs::new("near", &u("near"), 1, d1, 0, how));
    l.push(Dfs::new("prefixed", &u("prefixed"), 1, d1.min(5), 1, how).empty_values());
    l.push(Dfs::new("wide", &u("wide"), 1, d1.min(if th { 5 } else { 4 }), 0, how));
    l.push(Dfs::new("chain", &u("chain"), 1, d1.min(if th { 5 } else { 4 }), 0, how));
    l.push(Dfs::new("mixed5", &u("mixed5"), 1, if th { 4 } else { 3 }, 5, how));
    if th && load != Load::Heavy {
        l.push(Dfs::new("near", &u("near"), 3, 2, 0, how));
    }
    // long histories over two keys
    let d0 = match (load, th) {
        (Load::Light, false) => 7,
        (Load::Light, true) => 8,
        (Load::Medium, false) => 6,
        (Load::Medium, true) => 7,
        (Load::Heavy, false) => 4,
        (Load::Heavy, true) => 6,
    };
    l.push(Dfs::new("near2", &u("near")[..2], 1, d0, 0, how));
    for d in &l {
        run_dfs::<H>(ctx, d, o);
    }
}

/// From every tree over the keys (made in two versions, some values overwritten), every one of the
/// batches, as one commit.
pub fn from_all_trees<H: SimpleHasher>(ctx: &Ctx, name: &str, keys: &[K], batches: &[Ups], skip_empty: bool, how: How, o: &impl Oracle<H>) {
    from_all_trees_of::<H>(ctx, name, keys, batches, skip_empty, how, va, o)
}
#[allow(clippy::too_many_arguments)]
pub fn from_all_trees_of<H: SimpleHasher>(
    ctx: &Ctx,
    name: &str,
    keys: &[K],
    batches: &[Ups],
    skip_empty: bool,
    how: How,
    val: fn(usize) -> V,
    o: &impl Oracle<H>,
) {
    const PARTS: usize = 8;
    let n = keys.len();
    ctx.family(name, (1 << n) * PARTS, |case, st| {
        let (s, part) = (case / PARTS, case % PARTS);
        if s == 0 && skip_empty {
            return Ok(());
        }
        let has: Vec<usize> = (0..n).filter(|i| s >> i & 1 == 1).collect();
        let mut w = World::<H>::new((s % 3) as u64, Rc::new(probes(keys, n + 7)));
        let c = |u: Ups| Rc::new(one(u));
        let old: Ups = has.iter().filter(|i| (*i + s) % 2 == 0).map(|i| (keys[*i], Some(val(*i + 20)))).collect();
        w.commit(&c(old))?;
        let new: Ups = has.iter().filter(|i| (*i + s) % 2 == 1 || *i % 3 == 0).map(|i| (keys[*i], Some(val(*i)))).collect();
        w.commit(&c(new))?;
        for b in batches.iter().skip(part).step_by(PARTS) {
            let c = Rc::new(Commit { sets: vec![b.clone()], how });
            let d = w.commit(&c)?;
            st.add("transitions", 1);
            st.add("traces", 1);
            st.state(w.state_fp());
            o.commit(&w, &d, &c, st)?;
            o.end(&w, st)?;
            w.undo(&d);
        }
        Ok(())
    });
    ctx.sample(|| format!("{name}: from each of {} trees each of {} batches", 1 << n, batches.len()));
}
/// Every way to keep, set or delete (`del`) each of the keys, as a batch in some order.
pub fn mixtures(keys: &[K], del: bool) -> Vec<Ups> {
    let n = keys.len();
    let b = if del { 3usize } else { 2 };
    (1..b.pow(n as u32))
        .map(|case| {
            let mut x = case;
            let mut u: Ups = vec![];
            for (i, k) in keys.iter().enumerate() {
                match x % b {
                    1 => u.push((*k, Some(vb(i)))),
                    2 => u.push((*k, None)),
                    _ => {}
                }
                x /= b;
            }
            let r = case % u.len();
            match case % 3 {
                0 => u.reverse(),
                1 => u.rotate_left(r),
                _ => {}
            }
            u
        })
        .collect()
}
/// Every sequence of `n` single updates.
pub fn sequences_of(keys: &[K], n: usize) -> Vec<Ups> {
    let s = singles(keys, false);
    (0..s.len().pow(n as u32))
        .map(|mut x| {
            (0..n)
                .map(|_| {
                    let u = s[x % s.len()].clone();
                    x /= s.len();
                    u
                })
                .collect()
        })
        .collect()
}
/// One value for every key and version: rewriting a pair does not change it, and pairs differ in
/// their keys only.
pub fn same_values<H: SimpleHasher>(ctx: &Ctx, o: &impl Oracle<H>, how: How) {
    let us = universes();
    for name in ["mixed5", "six", "chain"] {
        let k = &us.iter().find(|u| u.name == name).unwrap().keys;
        let k = &k[..k.len().min(if ctx.thorough() { 5 } else { 4 })];
        let batches: Vec<Ups> = mixtures(k, how != How::Bulk)
            .into_iter()
            .map(|u| u.into_iter().map(|(k, v)| (k, v.map(|_| va(0)))).collect())
            .collect();
        from_all_trees_of::<H>(ctx, &format!("same-values-{name}-{how:?}"), k, &batches, false, how, |_| va(0), o);
    }
}
pub fn transitions<H: SimpleHasher>(ctx: &Ctx, o: &impl Oracle<H>, how: How) {
    let us = universes();
    let u = |n: &str| us.iter().find(|u| u.name == n).unwrap().keys.clone();
    let th = ctx.thorough();
    // every change of one tree into another by one batch
    let n = if th { 6 } else { 5 };
    for name in ["mixed5", "six", "chain"] {
        let k = u(name);
        let k = &k[k.len() - n.min(k.len())..];
        from_all_trees::<H>(ctx, &format!("transitions-{name}-{how:?}"), k, &mixtures(k, true), false, how, o);
    }
    // batches of three updates with repeats of a key
    for name in ["near", "deep", "prefixed"] {
        let k = u(name);
        let k = &k[..];
        from_all_trees::<H>(ctx, &format!("triple-batches-{name}-{how:?}"), k, &sequences_of(k, 3), false, how, o);
    }
    if th {
        let k = &u("near")[..2];
        from_all_trees::<H>(ctx, &format!("quadruple-batches-{how:?}"), k, &sequences_of(k, 4), false, how, o);
    }
    same_values::<H>(ctx, o, how);
}

pub fn shapes_all<H: SimpleHasher>(ctx: &Ctx, o: &impl Oracle<H>, load: Load, how: How) {
    let th = ctx.thorough();
    let bs = bases();
    // two keys diverging at every bit
    let nb = if load == Load::Heavy && !th { 2 } else { 4 };
    ctx.family("pairs", 256 * nb * TEMPLATES, |i, st| {
        let t = i % TEMPLATES;
        let d = (i / TEMPLATES) % 256;
        let b = bs[3 - i / TEMPLATES / 256];
        run_scen::<H>(scen_of(&[b, flip(&b, d)], t, how, (i % 3) as u64, 24), o, st)
    });
    // three keys: all pairs of divergence depths
    let ds = depths(th && load != Load::Heavy);
    let mut trip: Vec<(usize, usize, bool)> = vec![];
    for (x, a) in ds.iter().enumerate() {
        for b in &ds[x + 1..] {
            trip.push((*a, *b, false));
            if !th || *a % 5 == 0 {
                trip.push((*a, *b, true));
            }
        }
    }
    ctx.family("triples", trip.len(), |i, st| {
        let (a, b, v) = trip[i];
        let base = bs[if v { 0 } else { 3 }];
        let k = if v {
            // the third key branches off the second
            [base, flip(&base, a), flip(&flip(&base, a), b)]
        } else {
            [base, flip(&base, a), flip(&base, b)]
        };
        let t = 1 + i % (TEMPLATES - 1);
        run_scen::<H>(scen_of(&k, t, how, 0, 16), o, st)
    });
    // one 16-way node with every (quick: many) set of children
    let ms = masks(th && load == Load::Light);
    ctx.family("fans", ms.len() * 2, |i, st| {
        let m = ms[i / 2];
        let (p, base) = if i % 2 == 0 { (0, bs[3]) } else { ([1, 2, 5, 62, 63][(i / 2) % 5], bs[2]) };
        let twos = [0u16, 0, 0x1111, 0xffff, 0x8001][(i / 2) % 5] & m;
        let keys = fan(&base, p, m, twos);
        let mut pr: Vec<K> = (0..16).map(|n| set_nib(&base, p, n)).collect();
        pr.extend(keys.iter().copied());
        pr.push([0; 32]);
        pr.push([255; 32]);
        if p > 0 {
            // a pair of keys off the prefix so that the node is not collapsed
            let off = set_nib(&base, p - 1, nib(&base, p - 1) ^ 0xc);
            pr.push(off);
        }
        pr.sort();
        pr.dedup();
        let mut cs = vec![Commit { sets: vec![puts(&keys, va)], how }];
        // remove up to three of them, one by one, then the rest
        let mut rest = keys.clone();
        for j in 0..3.min(rest.len()) {
            let x = rest.remove((i / 2 + j * 7) % rest.len());
            cs.push(Commit { sets: vec![vec![(x, None)]], how });
        }
        run_scen::<H>(Scen { first: 0, probes: pr, commits: cs }, o, st)
    });
    // every none/leaf/internal pattern on some slots of a node
    let slots: &[u8] = match (load, th) {
        (Load::Heavy, false) => &[0, 1, 7, 8, 15],
        (_, false) => &[0, 1, 4, 7, 8, 15],
        (Load::Heavy, true) => &[0, 1, 2, 4, 7, 8, 15],
        (_, true) => &[0, 1, 2, 3, 4, 7, 8, 15],
    };
    ctx.family("slots", 3usize.pow(slots.len() as u32) - 1, |i, st| {
        let mut x = i + 1;
        let (mut m, mut tw) = (0u16, 0u16);
        for s in slots {
            match x % 3 {
                1 => m |= 1 << s,
                2 => {
                    m |= 1 << s;
                    tw |= 1 << s
                }
                _ => {}
            }
            x /= 3;
        }
        let base = bs[if i % 2 == 0 { 3 } else { 0 }];
        let keys = fan(&base, i % 3, m, tw);
        let mut pr = probes(&keys, 40);
        pr.extend((0..16).map(|n| set_nib(&base, i % 3, n)));
        let mut cs = vec![Commit { sets: vec![puts(&keys, va)], how }];
        cs.push(Commit { sets: vec![vec![(keys[i % keys.len()], None)]], how });
        cs.push(Commit { sets: vec![vec![(keys[(i / 2) % keys.len()], None)]], how });
        run_scen::<H>(Scen { first: i as u64 % 2, probes: pr, commits: cs }, o, st)
    });
    // first versions
    let us = universes();
    ctx.family("first-versions", FIRSTS.len() * us.len() * TEMPLATES, |i, st| {
        let f = FIRSTS[i % FIRSTS.len()];
        let u = &us[i / FIRSTS.len() % us.len()];
        let t = i / FIRSTS.len() / us.len();
        run_scen::<H>(scen_of(&u.keys, t, how, f, 30), o, st)
    });
    // values of every length
    let lens: Vec<usize> = (0..if th { 520 } else { 140 })
        .chain([255, 256, 257, 1000, 4095, 4096, 65535, 65536, 300_000])
        .collect();
    ctx.family("value-lengths", lens.len(), |i, st| {
        let k = &us[i % us.len()].keys;
        let val = |s: u8| -> V { (0..lens[i]).map(|x| (x as u8).wrapping_mul(3) ^ s).collect() };
        let c = |u: Ups| Commit { sets: vec![u], how };
        let cs = vec![
            c(vec![(k[0], Some(val(0))), (k[1], Some(val(0)))]),
            c(vec![(k[2], Some(val(0))), (k[0], Some(val(1)))]),
            c(vec![(k[0], None), (k[1], Some(vec![9]))]),
            c(vec![(k[0], Some(val(0))), (k[2], Some(val(0)))]),
        ];
        run_scen::<H>(Scen { first: 0, probes: probes(k, 12), commits: cs }, o, st)
    });
    // one long history containing every sequence of two (three) consecutive single updates
    ctx.family("long-histories", 8, |i, st| {
        let keys = &us[[0, 1, 4, 5, 6, 2, 3, 5][i]].keys;
        let nk = keys.len().min(if i % 2 == 0 { 3 } else { 5 });
        let mut s: Vec<Ups> = singles(&keys[..nk], i % 2 == 1).into_iter().map(|x| vec![x]).collect();
        s.push(vec![]);
        let order = if th && nk <= 3 && load != Load::Heavy { 3 } else { 2 };
        let cs = de_bruijn(s.len(), order)
            .into_iter()
            .map(|x| Commit { sets: vec![s[x].clone()], how })
            .collect();
        run_scen::<H>(Scen { first: i as u64 % 3, probes: probes(&keys[..nk], 14), commits: cs }, o, st)
    });
    // big trees
    if load != Load::Heavy || th {
        ctx.family("big", 8, |i, st| {
            let keys = match i {
                0 => comb(&bs[0], 256),
                1 => comb(&bs[1], 256),
                2 => comb(&bs[3], 256),
                3 => dense(),
                4 => many(if th { 3000 } else { 700 }),
                5 => many(100),
                6 => comb(&bs[2], 64),
                _ => {
                    let mut k = dense();
                    k.extend(many(60));
                    k
                }
            };
            let mut pr = keys.clone();
            if pr.len() > 300 {
                pr.truncate(300);
            }
            for k in keys.iter().step_by(keys.len() / 40 + 1) {
                pr.push(flip(k, 255));
                pr.push(flip(k, 130));
            }
            let some: Vec<K> = keys.iter().step_by(keys.len() / 12 + 1).copied().collect();
            let c = |u: Ups| Commit { sets: vec![u], how };
            let mut cs = vec![
                c(puts(&keys, va)),
                c(some.iter().map(|k| (*k, None)).collect()),
                c(puts(&some, vb)),
            ];
            cs.push(c(keys.iter().skip(1).map(|k| (*k, None)).collect()));
            run_scen::<H>(Scen { first: 0, probes: pr, commits: cs }, o, st)
        });
    }
}

/// A fixed list of small trees (contents) used by checks that build one tree and attack it:
/// every subset of small universes.
pub fn small_trees() -> Vec<Map> {
    let mut out: Vec<Map> = vec![];
    for u in universes() {
        let n = u.keys.len();
        for m in 0..(1usize << n) {
            let mut t = Map::new();
            for i in 0..n {
                if m >> i & 1 == 1 {
                    t.insert(u.keys[i], va(i));
                }
            }
            if !out.contains(&t) {
                out.push(t);
            }
        }
    }
    out
}

pub fn build<H: SimpleHasher>(m: &Map, v: Version) -> R<World<H>> {
    let keys: Vec<K> = m.keys().copied().collect();
    let mut w = World::<H>::new(v, Rc::new(keys));
    let ups: Ups = m.iter().map(|(k, v)| (*k, Some(v.clone()))).collect();
    let d = w.commit(&Rc::new(one(ups)))?;
    ck!(d.roots.len() == 1, "one root expected");
    Ok(w)
}

/// A cyclic sequence over 0..k containing every word of length n.
pub fn de_bruijn(k: usize, n: usize) -> Vec<usize> {
    fn db(t: usize, p: usize, k: usize, n: usize, a: &mut Vec<usize>, out: &mut Vec<usize>) {
        if t > n {
            if n % p == 0 {
                out.extend_from_slice(&a[1..=p]);
            }
        } else {
            a[t] = a[t - p];
            db(t + 1, p, k, n, a, out);
            for j in a[t - p] + 1..k {
                a[t] = j;
                db(t + 1, t, k, n, a, out);
            }
        }
    }
    let mut a = vec![0; k * n + 1];
    let mut out = vec![];
    db(1, 1, k, n, &mut a, &mut out);
    let wrap: Vec<usize> = out[..n - 1].to_vec();
    out.extend(wrap);
    out
}
