//! Shared machinery for the SimHash index properties (C14, C15).
use crate::engine::Ctx;
use crate::mh::IdVal;
use crate::rng::Sm;
use gaoya::simhash::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};

pub trait SBits: SimHashBits + Send + Sync + 'static {
    const W: usize;
    fn of(v: u128) -> Self;
    fn to(&self) -> u128;
}
impl SBits for u64 {
    const W: usize = 64;
    fn of(v: u128) -> Self {
        v as u64
    }
    fn to(&self) -> u128 {
        *self as u128
    }
}
impl SBits for u128 {
    const W: usize = 128;
    fn of(v: u128) -> Self {
        v
    }
    fn to(&self) -> u128 {
        *self
    }
}
/// reference distance, independent of the code under test
pub fn dist<S: SBits>(a: &S, b: &S) -> usize {
    (a.to() ^ b.to()).count_ones() as usize
}

/// A signature: a base and a number of flipped bits, placed in one of several ways.
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct SSig {
    pub base: u8,
    /// number of flips relative to the configured distance
    pub flips: i8,
    /// 0 anywhere, 1 one per block, 2 all in one block, 3 at block edges
    pub place: u8,
    pub seed: u16,
}
impl SSig {
    pub fn make<S: SBits>(&self, c: &SHist) -> S {
        let mut b = Sm(self.base as u64);
        let mut v = match self.base {
            0 => 0,
            1 => u128::MAX,
            _ => (b.next() as u128) << 64 | b.next() as u128,
        };
        let mut r = Sm(self.seed as u64 + 1000);
        let n = (c.dist as i64 + self.flips as i64).clamp(0, S::W as i64) as usize;
        let edge = |k: usize| k * S::W / c.blocks;
        let one_block = r.below(c.blocks as u64) as usize;
        let mut used = BTreeSet::new();
        let mut guard = 0;
        while used.len() < n && guard < 4000 {
            guard += 1;
            let p = match self.place % 4 {
                _ if guard > 400 => r.below(S::W as u64) as usize,
                0 => r.below(S::W as u64) as usize,
                1 => {
                    let k = used.len() % c.blocks;
                    edge(k) + r.below((edge(k + 1) - edge(k)).max(1) as u64) as usize
                }
                2 => edge(one_block) + r.below((edge(one_block + 1) - edge(one_block)).max(1) as u64) as usize,
                _ => {
                    let k = r.below(c.blocks as u64) as usize;
                    if r.next() & 1 == 0 { edge(k) } else { edge(k + 1) - 1 }
                }
            };
            used.insert(p.min(S::W - 1));
        }
        for p in used {
            v ^= 1u128 << p;
        }
        S::of(v)
    }
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub enum SOp {
    Insert(u32, SSig),
    Bulk(Vec<(u32, SSig)>),
    BulkPairs(Vec<(u32, SSig)>),
    /// ids first..first+count around one base, 0..=dist+2 flips each;
    /// how: 0 one by one, 1 par_bulk_insert, 2 par_bulk_insert_pairs
    Many { first: u32, count: u32, seed: u16, base: u8, how: u8 },
}

impl SOp {
    pub fn pairs<S: SBits>(&self, c: &SHist) -> Vec<(u32, S)> {
        match self {
            SOp::Insert(i, s) => vec![(*i, s.make::<S>(c))],
            SOp::Bulk(p) | SOp::BulkPairs(p) => p.iter().map(|(i, s)| (*i, s.make::<S>(c))).collect(),
            SOp::Many { first, count, seed, base, .. } => (0..*count)
                .map(|k| {
                    let mut r = Sm((*seed as u64) << 20 ^ k as u64);
                    let flips = r.below(c.dist as u64 + 3) as i64 - c.dist as i64;
                    let place = r.below(4) as u8;
                    (first + k, SSig { base: *base, flips: flips as i8, place, seed: r.next() as u16 }.make::<S>(c))
                })
                .collect(),
        }
    }
}

#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct SHist {
    pub wide: bool,
    pub blocks: usize,
    pub dist: usize,
    pub ops: Vec<SOp>,
    pub queries: Vec<SSig>,
    pub threads: u8,
    /// string ids instead of numbers
    #[serde(default)]
    pub string_ids: bool,
}

fn binom(n: usize, k: usize) -> u64 {
    // large values are all the same to the callers
    let k = k.min(n - k);
    (0..k).fold(1u64, |a, i| if a > 1 << 40 { a } else { a * (n - i) as u64 / (i as u64 + 1) })
}

pub fn ssig() -> BoxedStrategy<SSig> {
    (prop_oneof![4 => Just(2u8), 2 => 0u8..5, 1 => 0u8..40], prop_oneof![4 => -1i8..=1, 2 => -3i8..=3, 1 => 0i8..60, 1 => Just(-100i8)], 0u8..4, any::<u16>())
        .prop_map(|(base, flips, place, seed)| SSig { base, flips, place, seed })
        .boxed()
}

/// Histories over all legal configurations with at most `tables` tables.
pub fn shist(tables: u64) -> BoxedStrategy<SHist> {
    let mut cfg: Vec<(usize, usize)> = vec![];
    for b in 1..=128usize {
        for d in 0..b {
            if binom(b, d) <= tables {
                cfg.push((b, d));
            }
        }
    }
    let small: Vec<(usize, usize)> = cfg.iter().copied().filter(|c| c.0 <= 10).collect();
    let conf = prop_oneof![5 => prop::sample::select(small), 2 => prop::sample::select(cfg.iter().copied().filter(|c| c.0 <= 32).collect::<Vec<_>>()), 1 => prop::sample::select(cfg)];
    let id = || prop_oneof![4 => 0u32..8, 1 => 0u32..40];
    let pairs = move || prop::collection::vec((id(), ssig()), 0..10);
    let many = |n: std::ops::Range<u32>| (0u32..20, n, any::<u16>(), prop_oneof![4 => Just(2u8), 1 => 0u8..5], 0u8..3).prop_map(|(first, count, seed, base, how)| SOp::Many { first, count, seed, base, how });
    let big = prop_oneof![4 => many(1..40), 4 => many(40..400), 1 => many(400..2600), 2 => (id(), ssig()).prop_map(|(i, s)| SOp::Insert(i, s))];
    let op = prop_oneof![
        40 => many(1..40),
        600 => (id(), ssig()).prop_map(|(i, s)| SOp::Insert(i, s)),
        100 => pairs().prop_map(SOp::Bulk),
        100 => pairs().prop_map(SOp::BulkPairs),
    ];
    let ops = prop_oneof![300 => prop::collection::vec(op, 0..16), 1 => prop::collection::vec(big, 1..5)];
    (any::<bool>(), conf, ops, prop::collection::vec(ssig(), 1..4), 0u8..4, prop::bool::weighted(0.2))
        .prop_map(|(wide, (blocks, dist), ops, queries, threads, string_ids)| SHist { wide: wide || blocks > 64, blocks, dist, ops, queries, threads, string_ids })
        .boxed()
}

/// Few insertions of thousands of entries around common values.
pub fn shist_large() -> BoxedStrategy<SHist> {
    let cfg = prop::sample::select(vec![(1usize, 0usize), (2, 1), (3, 1), (3, 2), (4, 2), (4, 3), (6, 2), (6, 5)]);
    let count = prop_oneof![1 => 1u32..3000, 4 => 3000u32..12_000, 3 => 12_000u32..30_000, 1 => 65_500u32..70_000];
    // thousands of tables, few entries
    let wide_cfg: Vec<(usize, usize)> = (1..=128usize).flat_map(|b| (0..b).map(move |d| (b, d))).filter(|(b, d)| binom(*b, *d) > 1000 && binom(*b, *d) < 6000).collect();
    let wop = prop_oneof![
        2 => (0u32..20, 1u32..30, any::<u16>(), Just(2u8), 0u8..3).prop_map(|(first, count, seed, base, how)| SOp::Many { first, count, seed, base, how }),
        1 => (0u32..40, ssig()).prop_map(|(i, s)| SOp::Insert(i, s)),
    ];
    let tables = (any::<bool>(), prop::sample::select(wide_cfg), prop::collection::vec(wop, 1..4), prop::collection::vec(ssig(), 1..3), 0u8..4, any::<bool>())
        .prop_map(|(wide, (blocks, dist), ops, queries, threads, string_ids)| SHist { wide: wide || blocks > 64, blocks, dist, ops, queries, threads, string_ids });
    let many = (0u32..20, count, any::<u16>(), prop_oneof![3 => Just(2u8), 2 => 0u8..3], 0u8..3).prop_map(|(first, count, seed, base, how)| SOp::Many { first, count, seed, base, how });
    let op = prop_oneof![4 => many, 1 => (0u32..40, ssig()).prop_map(|(i, s)| SOp::Insert(i, s))];
    let entries = (any::<bool>(), cfg, prop::collection::vec(op, 1..4), prop::collection::vec(ssig(), 1..3), 0u8..4, any::<bool>())
        .prop_map(|(wide, (blocks, dist), ops, queries, threads, string_ids)| SHist { wide, blocks, dist, ops, queries, threads, string_ids });
    prop_oneof![1 => entries, 2 => tables].boxed()
}

pub struct SModel<S> {
    pub live: BTreeMap<u32, S>,
}
impl<S> Default for SModel<S> {
    fn default() -> Self {
        SModel { live: BTreeMap::new() }
    }
}
impl<S: SBits> SModel<S> {
    pub fn within(&self, q: &S, d: usize) -> BTreeSet<u32> {
        self.live.iter().filter(|(_, s)| dist(*s, q) <= d).map(|x| *x.0).collect()
    }
    pub fn dist(&self, i: u32, q: &S) -> usize {
        dist(&self.live[&i], q)
    }
}

pub fn apply<S: SBits, I: IdVal>(c: &SHist, op: &SOp, x: &mut SimHashIndex<S, I>, m: &mut SModel<S>, ctx: &mut Ctx) {
    let p = op.pairs::<S>(c);
    let how = match op {
        SOp::Insert(..) => 0,
        SOp::Bulk(_) => 1,
        SOp::BulkPairs(_) => 2,
        SOp::Many { how, .. } => how % 3,
    };
    match how {
        0 => p.iter().for_each(|(i, s)| x.insert(I::mk(*i), *s)),
        1 => x.par_bulk_insert(p.iter().map(|x| I::mk(x.0)).collect(), p.iter().map(|x| x.1).collect()),
        _ => x.par_bulk_insert_pairs(p.iter().map(|x| (I::mk(x.0), x.1)).collect()),
    }
    for (i, s) in p {
        if m.live.insert(i, s).is_some() {
            ctx.label("overwrite");
        }
    }
    if m.live.len() > 64 {
        ctx.label("more than 64 entries");
    }
    if m.live.len() > 1000 {
        ctx.label("more than 1000 entries");
    }
}

pub fn queries<S: SBits>(c: &SHist, m: &SModel<S>) -> Vec<S> {
    let mut v: Vec<S> = c.queries.iter().map(|s| s.make::<S>(c)).collect();
    // the common base itself: everything generated lies around it
    v.push(SSig { base: 2, flips: -100, place: 0, seed: 0 }.make::<S>(c));
    v.extend(m.live.values().take(3).copied());
    if m.live.len() > 16 {
        v.extend(m.live.values().rev().take(2).copied());
    }
    v
}
