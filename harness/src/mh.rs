//! Shared machinery for the MinHash index properties (C05-C11): generated operation
//! histories, a brute-force reference model, and the comparisons with the real index.
use crate::engine::{Ctx, Res};
use crate::ensure;
use crate::rng::Sm;
use gaoya::clustering::QueryIndex;
use gaoya::minhash::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::fmt::Debug;
use std::hash::{BuildHasher, Hash};
use std::panic::{catch_unwind, AssertUnwindSafe};

// ---------------------------------------------------------------- values

pub trait Val: MinHashType + Debug + 'static {
    fn sym(s: u64) -> Self;
}
macro_rules! val {
    ($t:ty) => {
        impl Val for $t {
            fn sym(s: u64) -> Self {
                match s {
                    0 => 0,
                    1 => 1,
                    2 => <$t>::MAX,
                    3 => <$t>::MAX - 1,
                    4 => <$t>::MIN.wrapping_add(2),
                    _ => (s.wrapping_mul(0x9E3779B97F4A7C15) >> 5) as $t,
                }
            }
        }
    };
}
val!(u8);
val!(u16);
val!(u32);
val!(u64);
val!(i8);
val!(i16);
val!(i32);
val!(i64);

pub trait IdVal: Hash + Eq + Clone + Send + Sync + Debug + 'static {
    fn mk(i: u32) -> Self;
    fn un(&self) -> u32;
}
impl IdVal for u32 {
    fn mk(i: u32) -> Self {
        i
    }
    fn un(&self) -> u32 {
        *self
    }
}
impl IdVal for i64 {
    fn mk(i: u32) -> Self {
        if i % 2 == 0 { -(i as i64) } else { i as i64 }
    }
    fn un(&self) -> u32 {
        self.unsigned_abs() as u32
    }
}
impl IdVal for String {
    fn mk(i: u32) -> Self {
        format!("doc-{i}")
    }
    fn un(&self) -> u32 {
        self[4..].parse().unwrap()
    }
}

/// A container written by a "user" of the trait: a map from id to the order of arrival.
pub struct UserContainer<T> {
    v: HashMap<T, u64>,
    next: u64,
}
impl<T: Hash + Eq + Send + Sync + Clone> IdContainer<T> for UserContainer<T> {
    fn new() -> Self {
        UserContainer { v: HashMap::new(), next: 0 }
    }
    fn push(&mut self, item: T) {
        self.next += 1;
        self.v.entry(item).or_insert(self.next);
    }
    fn len(&self) -> usize {
        self.v.len()
    }
    fn copy_to<S: BuildHasher>(&self, set: &mut HashSet<T, S>) {
        for x in self.v.keys() {
            set.insert(x.clone());
        }
    }
    fn copy_refs_to<'a, S: BuildHasher>(&'a self, set: &mut HashSet<&'a T, S>) {
        for x in self.v.keys() {
            set.insert(x);
        }
    }
    fn remove(&mut self, item: &T) {
        self.v.remove(item);
    }
}

// ---------------------------------------------------------------- cases

/// A signature: a base pattern with ranges overwritten by other bases.
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
pub struct Sig {
    pub base: u8,
    /// (start, length, base)
    pub edits: Vec<(u16, u8, u8)>,
}
impl Sig {
    pub fn make<T: Val>(&self, n: usize) -> Vec<T> {
        let sym = |base: u8, i: usize| T::sym((base as u64 * 5 + i as u64) % 9 + if base >= 8 { base as u64 * 11 } else { 0 });
        // constant signatures: all zero (an empty document), all ones
        let sym = |base: u8, i: usize| match base {
            14 => T::sym(0),
            15 => T::sym(2),
            _ => sym(base, i),
        };
        let mut v: Vec<T> = (0..n).map(|i| sym(self.base, i)).collect();
        for &(s, l, b) in &self.edits {
            let s = s as usize % n.max(1);
            let e = (s + l as usize).min(n);
            match b {
                // the same values in another order
                16 => v[s..e].reverse(),
                17 => v[s..e].rotate_left(1),
                _ => {
                    for i in s..e {
                        v[i] = sym(b, i);
                    }
                }
            }
        }
        v
    }
}
pub fn sig_strategy(n: usize) -> BoxedStrategy<Sig> {
    let n16 = n.max(1) as u16;
    let small = (0..n16, 1u8..3, 0u8..6);
    let wide = (0..n16, 1u8..=(n.clamp(1, 120) as u8), 0u8..18);
    let order = (0..n16, 2u8..5, 16u8..18);
    let edits = prop_oneof![
        3 => prop::collection::vec(small.clone(), 0..4),
        2 => prop::collection::vec(wide, 0..4),
        2 => prop::collection::vec(small, 0..(n.min(24)).max(1)),
        1 => prop::collection::vec(order, 1..4),
    ];
    (prop_oneof![12 => 0u8..3, 2 => 0u8..16, 1 => Just(14u8)], edits).prop_map(|(base, edits)| Sig { base, edits }).boxed()
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Thr {
    /// exactly m/n for the signature length n
    Frac(u16),
    Float(f64),
    /// slightly off m/n
    Near(u16, f64),
}
impl Thr {
    pub fn get(&self, n: usize) -> f64 {
        match self {
            Thr::Frac(m) => (*m as usize % (n + 1)) as f64 / n as f64,
            Thr::Float(f) => *f,
            Thr::Near(m, e) => ((*m as usize % (n + 1)) as f64 / n as f64 + e).clamp(0.0, 1.0),
        }
    }
}
pub fn thr_strategy() -> BoxedStrategy<Thr> {
    prop_oneof![
        5 => (0u16..400).prop_map(Thr::Frac),
        1 => (0u16..400, prop::sample::select(vec![1e-9, -1e-9, 1e-7, -1e-7, 1e-5, -1e-5, 1e-3, -1e-3])).prop_map(|(m, e)| Thr::Near(m, e)),
        3 => (0u32..=1000).prop_map(|x| Thr::Float(x as f64 / 1000.0)),
        1 => Just(Thr::Float(1.0)),
        1 => Just(Thr::Float(0.5)),
        1 => Just(Thr::Float(0.0)),
    ]
    .boxed()
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Op {
    Insert(u32, Sig),
    Bulk(Vec<(u32, Sig)>),
    BulkPairs(Vec<(u32, Sig)>),
    Remove(u32),
    BulkRemove(Vec<u32>),
    Clear,
    ShrinkToFit,
    ShrinkTo(u32),
    BadInsert(u32, u8),
    BadQuery(u8),
    /// ids first..first+count with derived signatures (crowded or graded buckets);
    /// how: 0 one by one, 1 par_bulk_insert, 2 par_bulk_insert_pairs
    Many { first: u32, count: u32, kind: u8, seed: u16, how: u8 },
    /// every step-th of the ids first..first+count
    RemoveMany { first: u32, count: u32, step: u8, bulk: bool },
}

/// an id no generated operation uses
pub const SPARE: u32 = 4_000_000_000;

/// The signature `Op::Many` gives to its k-th id.
pub fn many_sig<T: Val>(kind: u8, seed: u16, k: u32, b: usize, r: usize) -> Vec<T> {
    let n = b * r;
    let base = |x: u8| Sig { base: x, edits: vec![] }.make::<T>(n);
    let mut g = Sm((seed as u64) << 32 | k as u64);
    let mut noise = |v: &mut Vec<T>, from: usize, to: usize| {
        for i in from..to {
            v[i] = T::sym(100 + g.next() % 1_000_000);
        }
    };
    let mut v = base(0);
    match kind % 6 {
        // every band from one of three bases
        0 => {
            let mut g = Sm(seed as u64 ^ (k as u64) << 20);
            for band in 0..b {
                let o = base(g.below(3) as u8);
                v[band * r..(band + 1) * r].clone_from_slice(&o[band * r..(band + 1) * r]);
            }
        }
        // only one band in common with base 0, a different one for every id
        1 => {
            let keep = k as usize % b;
            noise(&mut v, 0, keep * r);
            noise(&mut v, (keep + 1) * r, n);
        }
        // graded: the first k mod (n+1) positions agree with base 0
        2 => noise(&mut v, k as usize % (n + 1), n),
        // graded from the other end
        3 => {
            let to = k as usize % (n + 1);
            noise(&mut v, 0, to)
        }
        // copies
        4 => {}
        // nothing in common
        _ => noise(&mut v, 0, n),
    }
    v
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum Ctor {
    New,
    Cap(u32, f64),
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Hist {
    pub combo: u8,
    pub b: usize,
    pub r: usize,
    pub thr: Thr,
    pub ctor: Ctor,
    /// operations that would overwrite a live id are skipped
    pub no_overwrite: bool,
    pub ops: Vec<Op>,
    pub probes: Vec<Sig>,
    pub k: u8,
}

#[derive(Clone, Copy)]
pub struct OpW {
    pub insert: u32,
    pub bulk: u32,
    pub remove: u32,
    pub bulk_remove: u32,
    pub clear: u32,
    pub shrink: u32,
    pub bad: u32,
}
pub const DEFAULT_W: OpW = OpW { insert: 10, bulk: 3, remove: 5, bulk_remove: 3, clear: 1, shrink: 1, bad: 1 };

pub fn layout() -> BoxedStrategy<(usize, usize)> {
    prop_oneof![
        8 => (1usize..=8, 1usize..=4),
        3 => (1usize..=20, 1usize..=6),
        1 => prop::sample::select(vec![(42usize, 3usize), (100, 1), (50, 2), (25, 4), (10, 20), (64, 4), (130, 1), (260, 1), (70, 2), (1, 70), (2, 40), (1, 200), (5, 17), (33, 3)]),
        1 => Just((1usize, 1usize)),
    ]
    .boxed()
}

pub fn op_strategy(n: usize, w: OpW, idmax: u32) -> BoxedStrategy<Op> {
    let id = prop_oneof![5 => 0u32..6.min(idmax), 2 => 0u32..idmax];
    let pairs = prop::collection::vec((id.clone(), sig_strategy(n)), 0..12);
    let scale = if idmax > 100 { 1u32 } else { 0 };
    let count = match idmax {
        0..=100 => (1u32..40).boxed(),
        101..=9999 => prop_oneof![3 => 1u32..40, 3 => 40u32..300, 2 => 300u32..2600].boxed(),
        _ => prop_oneof![1 => 1u32..3000, 4 => 3000u32..13_000, 2 => 13_000u32..20_000, 1 => 65_500u32..70_000].boxed(),
    };
    let rcount = if idmax > 9999 { prop_oneof![2 => 1u32..7000, 1 => 7000u32..14_000].boxed() } else { count.clone() };
    let many = (prop_oneof![Just(0u32), 0u32..40], count, 0u8..6, 0u16..50, 0u8..3).prop_map(|(first, count, kind, seed, how)| Op::Many { first, count, kind, seed, how });
    let rmany = (prop_oneof![Just(0u32), 0u32..40], rcount, 1u8..6, any::<bool>()).prop_map(|(first, count, step, bulk)| Op::RemoveMany { first, count, step, bulk });
    let mut v: Vec<(u32, BoxedStrategy<Op>)> = vec![
        (if w.bulk == 0 { 0 } else { 1 + 9 * scale }, many.boxed()),
        (if w.bulk == 0 || w.bulk_remove == 0 { 0 } else { 1 + 4 * scale }, rmany.boxed()),
        (w.insert, (id.clone(), sig_strategy(n)).prop_map(|(i, s)| Op::Insert(i, s)).boxed()),
        (w.bulk, pairs.clone().prop_map(Op::Bulk).boxed()),
        (w.bulk, pairs.prop_map(Op::BulkPairs).boxed()),
        (w.remove, id.clone().prop_map(Op::Remove).boxed()),
        (w.bulk_remove, prop::collection::vec(id.clone(), 0..8).prop_map(Op::BulkRemove).boxed()),
        (w.clear, Just(Op::Clear).boxed()),
        (w.shrink, Just(Op::ShrinkToFit).boxed()),
        (w.shrink * 2, prop_oneof![0u32..20, 0u32..4000].prop_map(Op::ShrinkTo).boxed()),
        (w.bad, (id, 0u8..12).prop_map(|(i, k)| Op::BadInsert(i, k)).boxed()),
        (w.bad, (0u8..14).prop_map(Op::BadQuery).boxed()),
    ];
    v.retain(|x| x.0 > 0);
    proptest::strategy::Union::new_weighted(v).boxed()
}

pub fn hist_strategy(w: OpW, max_ops: usize) -> BoxedStrategy<Hist> {
    hist_classes(w, max_ops, prop_oneof![190 => Just(0u8), 20 => Just(1u8), 3 => Just(2u8)].boxed())
}
/// few operations over tens of thousands of ids in a small layout, or over long signatures
pub fn hist_large(w: OpW) -> BoxedStrategy<Hist> {
    hist_classes(w, 5, prop_oneof![1 => Just(3u8), 3 => Just(4u8)].boxed())
}
fn hist_classes(w: OpW, max_ops: usize, class: BoxedStrategy<u8>) -> BoxedStrategy<Hist> {
    (layout(), (1usize..4, 1usize..3), class)
        .prop_flat_map(move |(usual, tiny, big)| {
            let long = [(1500, 1), (300, 5), (40, 50), (700, 2), (3, 1000), (1, 3000), (2, 10_000), (1, 70_000)];
            let (b, r) = match big {
                3 => tiny,
                4 => long[(usual.0 * 7 + usual.1 + tiny.0 * 3 + tiny.1) % long.len()],
                _ => usual,
            };
            let n = b * r;
            let idmax = [12, 60, 3000, 80_000, 60][big as usize];
            (
                0u8..8,
                thr_strategy(),
                prop_oneof![3 => Just(Ctor::New), 1 => (prop_oneof![0u32..5, 0u32..3000], 0u32..=100).prop_map(|(c, p)| Ctor::Cap(c, p as f64 / 100.0))],
                any::<bool>(),
                prop::collection::vec(op_strategy(n, w, idmax), if big >= 3 { 1..5 } else if big == 2 { 1..8 } else { 0..max_ops * if big == 1 { 3 } else { 1 } }),
                prop::collection::vec(sig_strategy(n), 1..4),
                0u8..8,
            )
                .prop_map(move |(combo, thr, ctor, no_overwrite, ops, probes, k)| Hist {
                    combo, b, r, thr, ctor, no_overwrite, ops, probes, k,
                })
        })
        .boxed()
}

// ---------------------------------------------------------------- model

pub struct Model<T> {
    pub b: usize,
    pub r: usize,
    pub thr: f64,
    pub live: BTreeMap<u32, Vec<T>>,
    /// signatures that were overwritten while live (their bucket entries may linger)
    pub ghosts: BTreeMap<u32, Vec<Vec<T>>>,
}

impl<T: Val> Model<T> {
    pub fn new(b: usize, r: usize, thr: f64) -> Self {
        Model { b, r, thr, live: BTreeMap::new(), ghosts: BTreeMap::new() }
    }
    pub fn n(&self) -> usize {
        self.b * self.r
    }
    pub fn insert(&mut self, id: u32, s: Vec<T>) -> bool {
        if let Some(old) = self.live.insert(id, s) {
            self.ghosts.entry(id).or_default().push(old);
            return true;
        }
        false
    }
    pub fn remove(&mut self, id: u32) -> Option<Vec<T>> {
        self.live.remove(&id)
    }
    pub fn clear(&mut self) {
        self.live.clear();
        self.ghosts.clear();
    }
    pub fn shares(&self, a: &[T], q: &[T]) -> bool {
        (0..self.b).any(|k| a[k * self.r..(k + 1) * self.r] == q[k * self.r..(k + 1) * self.r])
    }
    pub fn sim(&self, a: &[T], q: &[T]) -> f64 {
        let m = a.iter().zip(q).filter(|(x, y)| x == y).count();
        m as f64 / self.n() as f64
    }
    pub fn must_cand(&self, q: &[T]) -> BTreeSet<u32> {
        self.live.iter().filter(|(_, s)| self.shares(s, q)).map(|(i, _)| *i).collect()
    }
    pub fn may_cand(&self, q: &[T]) -> BTreeSet<u32> {
        self.live
            .iter()
            .filter(|(i, s)| self.shares(s, q) || self.ghosts.get(i).map_or(false, |g| g.iter().any(|o| self.shares(o, q))))
            .map(|(i, _)| *i)
            .collect()
    }
    pub fn within(&self, c: BTreeSet<u32>, q: &[T]) -> BTreeSet<u32> {
        c.into_iter().filter(|i| self.sim(&self.live[i], q) >= self.thr).collect()
    }
}

// ---------------------------------------------------------------- comparisons

pub fn ids<'a, I: IdVal, It: IntoIterator<Item = &'a I>>(it: It) -> BTreeSet<u32> {
    it.into_iter().map(|i| i.un()).collect()
}

pub fn between(what: &str, got: &BTreeSet<u32>, must: &BTreeSet<u32>, may: &BTreeSet<u32>) -> Res {
    ensure!(must.is_subset(got), "{what}: missing ids {:?} (got {:?})", must.difference(got).collect::<Vec<_>>(), got);
    ensure!(got.is_subset(may), "{what}: unexpected ids {:?} (allowed {:?})", got.difference(may).collect::<Vec<_>>(), may);
    Ok(())
}

pub fn check_membership<T: Val, I: IdVal, C: IdContainer<I>>(
    x: &MinHashIndex<T, I, C>,
    m: &Model<T>,
    q: &Vec<T>,
    ctx: &mut Ctx,
) -> Res {
    let (mc, yc) = (m.must_cand(q), m.may_cand(q));
    if mc.iter().any(|i| m.sim(&m.live[i], q) == m.thr) {
        ctx.label("similarity exactly at threshold");
    }
    let (ncand, nlive) = (yc.len(), m.live.len());
    let must = m.within(mc, q);
    let may = m.within(yc, q);
    if !must.is_empty() && must.len() < nlive {
        ctx.label("query splits the live ids");
        ctx.nontrivial();
    }
    if may.len() < ncand {
        ctx.label("candidate filtered by threshold");
    }
    if must.len() < may.len() {
        ctx.label("stale candidates possible");
    }
    ctx.cmp();
    let a = ids(x.query(q).into_iter());
    between("query", &a, &must, &may)?;
    let o: BTreeSet<u32> = x.query_owned(q).iter().map(|i| i.un()).collect();
    between("query_owned", &o, &must, &may)?;
    ensure!(a == o, "query {a:?} and query_owned {o:?} differ");
    Ok(())
}

pub fn check_by_id<T: Val, I: IdVal, C: IdContainer<I>>(x: &MinHashIndex<T, I, C>, m: &Model<T>, id: u32, ctx: &mut Ctx) -> Res {
    let i = I::mk(id);
    let (a, b, c) = (
        ids(x.query_by_id(&i).into_iter()),
        x.query_by_id_owned(&i).iter().map(|i| i.un()).collect::<BTreeSet<u32>>(),
        ids(QueryIndex::query(x, &i).into_iter()),
    );
    ctx.cmp();
    match m.live.get(&id) {
        None => {
            ensure!(a.is_empty() && b.is_empty() && c.is_empty(), "by-id query of unknown id {id} returned {a:?} {b:?} {c:?}");
        }
        Some(q) => {
            let (must, may) = (m.within(m.must_cand(q), q), m.within(m.may_cand(q), q));
            between("query_by_id", &a, &must, &may)?;
            between("query_by_id_owned", &b, &must, &may)?;
            between("QueryIndex::query", &c, &must, &may)?;
            if m.thr <= 1.0 {
                ensure!(a.contains(&id), "live id {id} not found by its own signature");
            }
        }
    }
    Ok(())
}

fn near(a: f64, b: f64) -> bool {
    (a - b).abs() <= 1e-9
}

pub fn check_simlist<T: Val, I: IdVal>(what: &str, m: &Model<T>, q: &[T], l: &[(I, f64)], must: &BTreeSet<u32>, may: &BTreeSet<u32>) -> Res {
    let got: BTreeSet<u32> = l.iter().map(|(i, _)| i.un()).collect();
    ensure!(got.len() == l.len(), "{what}: repeated ids in {l:?}");
    between(what, &got, must, may)?;
    for (i, s) in l {
        let e = m.sim(&m.live[&i.un()], q);
        ensure!(near(*s, e), "{what}: id {i:?} reported similarity {s}, true {e}");
    }
    for w in l.windows(2) {
        ensure!(w[0].1 >= w[1].1, "{what}: not sorted by similarity: {l:?}");
    }
    Ok(())
}

pub fn check_ranked<T: Val, I: IdVal, C: IdContainer<I>>(
    x: &MinHashIndex<T, I, C>,
    m: &Model<T>,
    q: &Vec<T>,
    k: usize,
    ctx: &mut Ctx,
) -> Res {
    let (mc, yc) = (m.must_cand(q), m.may_cand(q));
    let must = m.within(mc.clone(), q);
    let may = m.within(yc.clone(), q);
    ctx.cmp();
    let l = x.query_owned_return_similarity(q);
    check_simlist("query_owned_return_similarity", m, q, &l, &must, &may)?;
    let plain = ids(x.query(q).into_iter());
    let got: BTreeSet<u32> = l.iter().map(|(i, _)| i.un()).collect();
    ensure!(plain == got, "similarity query ids {got:?} differ from plain query {plain:?}");
    let distinct_sims: BTreeSet<u64> = l.iter().map(|(_, s)| s.to_bits()).collect();
    if distinct_sims.len() >= 2 {
        ctx.label("two or more different similarities");
        ctx.nontrivial();
    }
    if must.iter().any(|i| m.sim(&m.live[i], q) == m.thr) {
        ctx.label("similarity exactly at threshold");
    }
    // nearest one
    match x.query_one(q) {
        None => ensure!(plain.is_empty(), "query_one found nothing, plain query found {plain:?}"),
        Some((i, s)) => {
            let i = i.un();
            ensure!(may.contains(&i), "query_one returned {i}, allowed {may:?}");
            ensure!(plain.contains(&i), "query_one returned {i}, plain query {plain:?}");
            let e = m.sim(&m.live[&i], q);
            ensure!(near(s, e), "query_one reported similarity {s} for {i}, true {e}");
            let best = plain.iter().map(|j| m.sim(&m.live[j], q)).fold(0.0, f64::max);
            ensure!(near(e, best), "query_one returned {i} with {e}, but {best} is available");
        }
    }
    // top k
    for k in [k, 0, 1, yc.len() / 2, yc.len(), yc.len() + 3, usize::MAX] {
        let t = x.query_top_k(q, k);
        let got: BTreeSet<u32> = t.iter().map(|(i, _)| i.un()).collect();
        ensure!(got.len() == t.len(), "query_top_k: repeated ids in {t:?}");
        ensure!(t.len() <= k, "query_top_k({k}) returned {} entries", t.len());
        ensure!(got.is_subset(&yc), "query_top_k: {:?} are not live candidates", got.difference(&yc).collect::<Vec<_>>());
        ensure!(t.len() >= k.min(mc.len()), "query_top_k({k}) returned {} of {} candidates", t.len(), mc.len());
        for (i, d) in &t {
            let e = 1.0 - m.sim(&m.live[&i.un()], q);
            ensure!(near(*d, e), "query_top_k: id {i:?} reported distance {d}, true {e}");
        }
        for w in t.windows(2) {
            ensure!(w[0].1 <= w[1].1, "query_top_k: not sorted by distance: {t:?}");
        }
        for i in mc.difference(&got) {
            let d = 1.0 - m.sim(&m.live[i], q);
            ensure!(t.len() == k && (k == 0 || t[k - 1].1 <= d + 1e-9), "query_top_k({k}) left out {i} at distance {d}: {t:?}");
        }
        if k > 0 && k < mc.len() {
            ctx.label("top-k truncates");
        }
    }
    Ok(())
}

pub fn check_book<T: Val, I: IdVal, C: IdContainer<I>>(x: &MinHashIndex<T, I, C>, m: &Model<T>, universe: &BTreeSet<u32>, ctx: &mut Ctx) -> Res {
    ctx.cmp();
    ensure!(x.size() == m.live.len(), "size {} but {} live ids", x.size(), m.live.len());
    ensure!(x.num_hashes() == m.n(), "num_hashes {} expected {}", x.num_hashes(), m.n());
    ensure!(x.capacity() >= x.size(), "capacity {} below size {}", x.capacity(), x.size());
    let map = x.get_id_signature_map();
    ensure!(map.len() == m.live.len(), "id map has {} entries, {} live", map.len(), m.live.len());
    for (i, s) in map {
        ensure!(m.live.get(&i.un()) == Some(s), "id map entry {i:?} -> {s:?}, expected {:?}", m.live.get(&i.un()));
    }
    for u in universe {
        let g = x.get_signature(&I::mk(*u));
        ensure!(g == m.live.get(u), "get_signature({u}) = {g:?}, expected {:?}", m.live.get(u));
    }
    let st = x.band_sizes();
    ensure!(st.sizes.len() == m.b, "band_sizes reports {} bands of {}", st.sizes.len(), m.b);
    for k in 0..m.b {
        let rg = k * m.r..(k + 1) * m.r;
        let lo: HashSet<&[T]> = m.live.values().map(|s| &s[rg.clone()]).collect();
        let mut hi = lo.clone();
        hi.extend(m.ghosts.values().flatten().map(|s| &s[rg.clone()]));
        ensure!(
            st.sizes[k] >= lo.len() && st.sizes[k] <= hi.len(),
            "band {k} holds {} buckets, expected {}..={} (live ids {:?})", st.sizes[k], lo.len(), hi.len(), m.live.keys().collect::<Vec<_>>()
        );
    }
    let shown = x.to_string();
    for (name, v) in [("size", m.live.len()), ("bands", m.b), ("rows_per_band", m.r), ("num_hashes", m.n())] {
        ensure!(shown_number(&shown, name) == Some(v as f64), "printed form {shown:?}: {name} should be {v}");
    }
    ensure!(shown_number(&shown, "threshold").map_or(false, |t| near(t, m.thr)), "printed form {shown:?}: threshold should be {}", m.thr);
    let (mn, mx) = (st.sizes.iter().min().unwrap(), st.sizes.iter().max().unwrap());
    ensure!(st.min_size == *mn && st.max_size == *mx, "band statistics {st:?} inconsistent");
    Ok(())
}

/// The number printed after `name = ` (or `name: `).
pub fn shown_number(s: &str, name: &str) -> Option<f64> {
    let mut at = 0;
    while let Some(i) = s[at..].find(name) {
        let start = at + i;
        at = start + name.len();
        let word = s[..start].chars().next_back().map_or(true, |c| !(c.is_alphanumeric() || c == '_'));
        let rest = s[at..].trim_start();
        if let (true, Some(rest)) = (word, rest.strip_prefix(['=', ':'])) {
            let num: String = rest.trim_start().chars().take_while(|c| c.is_ascii_digit() || ".-+eE".contains(*c)).collect();
            return num.trim_end_matches('.').parse().ok();
        }
    }
    None
}

// ---------------------------------------------------------------- applying operations

pub fn construct<T: Val, I: IdVal, C: IdContainer<I>>(h: &Hist) -> MinHashIndex<T, I, C> {
    let thr = h.thr.get(h.b * h.r);
    match &h.ctor {
        Ctor::New => MinHashIndex::<T, I, C>::new_index(h.b, h.r, thr),
        Ctor::Cap(c, p) => MinHashIndex::<T, I, C>::new_with_capacity(h.b, h.r, thr, *c as usize, *p),
    }
}

/// Applies one operation to the index and the model; checks return values when `returns`.
pub fn apply<T: Val, I: IdVal, C: IdContainer<I>>(
    h: &Hist,
    op: &Op,
    x: &mut MinHashIndex<T, I, C>,
    m: &mut Model<T>,
    returns: bool,
    ctx: &mut Ctx,
) -> Res {
    let n = m.n();
    let filter = |m: &Model<T>, p: &Vec<(u32, Sig)>| -> Vec<(u32, Vec<T>)> {
        let mut seen = HashSet::new();
        p.iter()
            .filter(|(i, _)| !h.no_overwrite || (!m.live.contains_key(i) && seen.insert(*i)))
            .map(|(i, s)| (*i, s.make::<T>(n)))
            .collect()
    };
    match op {
        Op::Insert(i, s) => {
            if h.no_overwrite && m.live.contains_key(i) {
                return Ok(());
            }
            let s = s.make::<T>(n);
            x.insert(I::mk(*i), s.clone());
            if m.insert(*i, s) {
                ctx.label("overwrite");
            }
        }
        Op::Bulk(p) => {
            let p = filter(m, p);
            x.par_bulk_insert(p.iter().map(|(i, _)| I::mk(*i)).collect(), p.iter().map(|(_, s)| s.clone()).collect());
            for (i, s) in p {
                if m.insert(i, s) {
                    ctx.label("overwrite in bulk");
                }
            }
        }
        Op::BulkPairs(p) => {
            let p = filter(m, p);
            x.par_bulk_insert_pairs(p.iter().map(|(i, s)| (I::mk(*i), s.clone())).collect());
            for (i, s) in p {
                if m.insert(i, s) {
                    ctx.label("overwrite in bulk");
                }
            }
        }
        Op::Remove(i) => {
            let got = x.remove(&I::mk(*i));
            let exp = m.remove(*i);
            ctx.label(if exp.is_some() { "remove present" } else { "remove absent" });
            if returns {
                ensure!(got == exp, "remove({i}) returned {got:?}, expected {exp:?}");
            }
        }
        Op::BulkRemove(l) => {
            let mut got = x.bulk_remove(&l.iter().map(|i| I::mk(*i)).collect());
            let mut exp: Vec<Vec<T>> = l.iter().filter_map(|i| m.remove(*i)).collect();
            if exp.len() < l.len() && !exp.is_empty() {
                ctx.label("bulk remove with absent ids");
            }
            if returns {
                let key = |v: &Vec<T>| format!("{v:?}");
                got.sort_by_cached_key(key);
                exp.sort_by_cached_key(key);
                ensure!(got == exp, "bulk_remove({l:?}) returned {got:?}, expected {exp:?}");
            }
        }
        Op::Many { first, count, kind, seed, how } => {
            let p: Vec<(u32, Vec<T>)> = (0..*count)
                .map(|k| (first + k, k))
                .filter(|(i, _)| !h.no_overwrite || !m.live.contains_key(i))
                .map(|(i, k)| (i, many_sig::<T>(*kind, *seed, k, h.b, h.r)))
                .collect();
            match how % 3 {
                0 => p.iter().for_each(|(i, s)| x.insert(I::mk(*i), s.clone())),
                1 => x.par_bulk_insert(p.iter().map(|(i, _)| I::mk(*i)).collect(), p.iter().map(|(_, s)| s.clone()).collect()),
                _ => x.par_bulk_insert_pairs(p.iter().map(|(i, s)| (I::mk(*i), s.clone())).collect()),
            }
            for (i, s) in p {
                if m.insert(i, s) {
                    ctx.label("overwrite by a large batch");
                }
            }
            if m.live.len() > 64 {
                ctx.label("more than 64 live ids");
            }
            if m.live.len() > 1000 {
                ctx.label("more than 1000 live ids");
            }
            if m.live.len() > 10_000 {
                ctx.label("more than 10000 live ids");
            }
        }
        Op::RemoveMany { first, count, step, bulk } => {
            let l: Vec<u32> = (*first..first + *count).step_by((*step).max(1) as usize).collect();
            let mut exp: Vec<Vec<T>> = l.iter().filter_map(|i| m.remove(*i)).collect();
            let mut got: Vec<Vec<T>> = if *bulk {
                x.bulk_remove(&l.iter().map(|i| I::mk(*i)).collect())
            } else {
                l.iter().filter_map(|i| x.remove(&I::mk(*i))).collect()
            };
            if returns {
                let key = |v: &Vec<T>| format!("{v:?}");
                got.sort_by_cached_key(key);
                exp.sort_by_cached_key(key);
                ensure!(got == exp, "removing {} ids returned {} signatures, which are not the {} stored ones", l.len(), got.len(), exp.len());
            }
        }
        Op::Clear => {
            x.clear();
            m.clear();
            ctx.label("clear");
        }
        Op::ShrinkToFit => {
            x.shrink_to_fit();
            ctx.label("shrink_to_fit");
        }
        Op::ShrinkTo(c) => {
            let before = x.capacity();
            x.shrink_to(*c as usize);
            ctx.label("shrink_to");
            let keep = (*c as usize).min(before);
            ensure!(x.capacity() >= keep && x.capacity() >= x.size(), "shrink_to({c}) left capacity {} (was {before}, size {})", x.capacity(), x.size());
        }
        Op::BadInsert(i, kind) => {
            let bad = Sig { base: 0, edits: vec![] }.make::<T>(if kind % 2 == 0 { n + 1 } else { n - 1 });
            ctx.label("wrong length insert");
            let r = catch_unwind(AssertUnwindSafe(|| {
                // the well-formed neighbours of the bad entry use an id no operation uses
                let good = Sig { base: 1, edits: vec![] }.make::<T>(n);
                match *kind {
                    0..=3 => x.insert(I::mk(*i), bad),
                    4 | 5 => x.par_bulk_insert(vec![I::mk(*i)], vec![bad]),
                    6 | 7 => x.par_bulk_insert(vec![I::mk(SPARE), I::mk(*i)], vec![good, bad]),
                    8 | 9 => x.par_bulk_insert_pairs(vec![(I::mk(SPARE), good), (I::mk(*i), bad)]),
                    _ => x.par_bulk_insert_pairs(vec![(I::mk(*i), bad), (I::mk(SPARE), good)]),
                }
            }));
            ensure!(r.is_err(), "a signature of the wrong length was accepted");
        }
        Op::BadQuery(kind) => {
            let bad = Sig { base: 0, edits: vec![] }.make::<T>(if kind % 2 == 0 { n + 1 } else { n - 1 });
            ctx.label("wrong length query");
            let r = catch_unwind(AssertUnwindSafe(|| match kind % 7 {
                0 => {
                    x.query(&bad);
                }
                1 => {
                    x.query_owned(&bad);
                }
                2 => {
                    x.query_one(&bad);
                }
                3 => {
                    x.query_owned_return_similarity(&bad);
                }
                4 => {
                    x.query_top_k(&bad, 3);
                }
                5 => {
                    x.par_bulk_query(&vec![Sig { base: 0, edits: vec![] }.make::<T>(n), bad]);
                }
                _ => {
                    x.par_bulk_query_return_similarity(&vec![bad]);
                }
            }));
            ensure!(r.is_err(), "a query signature of the wrong length was accepted");
        }
    }
    Ok(())
}

pub fn universe(h: &Hist) -> BTreeSet<u32> {
    let mut u: BTreeSet<u32> = (0..4).collect();
    for o in &h.ops {
        match o {
            Op::Insert(i, _) | Op::Remove(i) | Op::BadInsert(i, _) => {
                u.insert(*i);
            }
            Op::Bulk(p) | Op::BulkPairs(p) => u.extend(p.iter().map(|x| x.0)),
            Op::BulkRemove(l) => u.extend(l.iter()),
            Op::Many { first, count, .. } | Op::RemoveMany { first, count, .. } => u.extend([*first, first + 1, first + *count / 2, first + *count - 1]),
            _ => {}
        }
    }
    u.insert(SPARE);
    u
}

/// Query signatures worth asking in the current state.
pub fn probes<T: Val>(h: &Hist, m: &Model<T>, cap: usize) -> Vec<Vec<T>> {
    let mut v: Vec<Vec<T>> = h.probes.iter().map(|s| s.make::<T>(m.n())).collect();
    if m.live.len() > 5000 {
        v.truncate(1);
        v.push(Sig { base: 0, edits: vec![] }.make::<T>(m.n()));
        v.extend(m.live.values().next_back().cloned());
        v.extend(m.live.values().nth(m.live.len() / 2).cloned());
        return v;
    }
    if m.live.len() > 16 {
        v.push(Sig { base: 0, edits: vec![] }.make::<T>(m.n()));
        v.extend(m.live.values().rev().take(2).cloned());
        v.extend(m.live.values().skip(m.live.len() / 2).take(1).cloned());
    }
    v.extend(m.live.values().take(cap).cloned());
    v.extend(m.ghosts.values().flatten().rev().take(2).cloned());
    v
}

/// Calls `$f::<T, I, C>($($args),*)` for the type combination a case selects: every hash
/// type, id type and container occurs, without the full cross product (build time).
#[macro_export]
macro_rules! dispatch {
    ($h:expr, $f:ident, $($a:expr),*) => {{
        use gaoya::minhash::{HashSetContainer as H, VecContainer as V, SmallVecContainer as S};
        use $crate::mh::UserContainer as U;
        match $h.combo % 8 {
            0 => $f::<u64, u32, H<u32>>($($a),*),
            1 => $f::<u32, u32, V<u32>>($($a),*),
            2 => $f::<u16, u32, S<u32, 1>>($($a),*),
            3 => $f::<u8, i64, U<i64>>($($a),*),
            4 => $f::<i64, String, H<String>>($($a),*),
            5 => $f::<i32, i64, V<i64>>($($a),*),
            6 => $f::<i16, String, S<String, 2>>($($a),*),
            _ => $f::<i8, u32, S<u32, 4>>($($a),*),
        }
    }};
}
