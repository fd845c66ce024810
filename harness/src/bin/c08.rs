use fnv::FnvBuildHasher;
use gaoya::minhash::*;
use gv::engine::*;
use gv::ensure;
use gv::mh::*;
use gv::rng::Sm;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};
use std::sync::OnceLock;

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Case {
    h: Hist,
    batch: Vec<(u32, Sig)>,
    /// extra pairs derived from this (large batches without large cases)
    bulk_extra: u32,
    remove: Vec<u32>,
    threads: u8,
    docs: Vec<Vec<u16>>,
    /// further derived documents, some of them empty
    #[serde(default)]
    more_docs: u16,
    /// the derived pairs use this many different ids
    #[serde(default)]
    spread: u32,
    /// so many further queries, derived
    #[serde(default)]
    nq: u32,
}
struct P;

fn pool(i: u8) -> &'static rayon::ThreadPool {
    static POOLS: OnceLock<Vec<rayon::ThreadPool>> = OnceLock::new();
    let v = POOLS.get_or_init(|| [1, 2, 3, 8].iter().map(|n| rayon::ThreadPoolBuilder::new().num_threads(*n).build().unwrap()).collect());
    &v[i as usize % v.len()]
}

fn same<T: Val, I: IdVal, C: IdContainer<I>>(what: &str, a: &MinHashIndex<T, I, C>, b: &MinHashIndex<T, I, C>, m: &Model<T>, qs: &Vec<Vec<T>>, p: &rayon::ThreadPool, ctx: &mut Ctx) -> Res {
    ctx.cmp();
    ensure!(a.size() == b.size(), "{what}: sizes {} and {}", a.size(), b.size());
    ensure!(a.get_id_signature_map() == b.get_id_signature_map(), "{what}: stored signatures differ");
    ensure!(a.band_sizes().sizes == b.band_sizes().sizes, "{what}: bucket counts differ: {:?} {:?}", a.band_sizes().sizes, b.band_sizes().sizes);
    let bulk = p.install(|| a.par_bulk_query(qs));
    let bulks = p.install(|| a.par_bulk_query_return_similarity(qs));
    ensure!(bulk.len() == qs.len() && bulks.len() == qs.len(), "{what}: bulk query returned {} / {} answers for {}", bulk.len(), bulks.len(), qs.len());
    for (k, q) in qs.iter().enumerate() {
        let (sa, sb) = (ids(a.query(q).into_iter()), ids(b.query(q).into_iter()));
        ensure!(sa == sb, "{what}: query {k} answers {sa:?} after bulk, {sb:?} after single operations");
        let (must, may) = (m.within(m.must_cand(q), q), m.within(m.may_cand(q), q));
        between(what, &sa, &must, &may)?;
        let got: BTreeSet<u32> = bulk[k].iter().map(|i| i.un()).collect();
        ensure!(got == sa, "{what}: bulk query {k} answers {got:?}, single query {sa:?}");
        let gs: BTreeMap<u32, u64> = bulks[k].iter().map(|(i, s)| (i.un(), s.to_bits())).collect();
        let ss: BTreeMap<u32, u64> = b.query_owned_return_similarity(q).iter().map(|(i, s)| (i.un(), s.to_bits())).collect();
        ensure!(gs == ss && bulks[k].len() == gs.len(), "{what}: bulk similarity query {k} differs from the single one");
        ensure!(bulks[k].windows(2).all(|w| w[0].1 >= w[1].1), "{what}: bulk similarity query {k} not sorted");
        if !sa.is_empty() && sa.len() < m.live.len() {
            ctx.nontrivial();
        }
    }
    Ok(())
}

fn run<T: Val, I: IdVal, C: IdContainer<I>>(c: &Case, ctx: &mut Ctx) -> Res {
    let h = &c.h;
    let n = h.b * h.r;
    let p = pool(c.threads);
    let mut a = construct::<T, I, C>(h);
    let mut a2 = construct::<T, I, C>(h);
    let mut b = construct::<T, I, C>(h);
    let mut m = Model::<T>::new(h.b, h.r, h.thr.get(n));
    // prior contents, single inserts only
    for op in &h.ops {
        if let Op::Insert(i, s) = op {
            let s = s.make::<T>(n);
            for x in [&mut a, &mut a2, &mut b] {
                x.insert(I::mk(*i), s.clone());
            }
            m.insert(*i, s);
        }
    }
    let mut batch: Vec<(u32, Vec<T>)> = c.batch.iter().map(|(i, s)| (*i, s.make::<T>(n))).collect();
    let mut g = Sm(c.bulk_extra as u64);
    if !batch.is_empty() {
        for k in 0..c.bulk_extra {
            let mut s = batch[g.below(batch.len() as u64) as usize].1.clone();
            let at = g.below(n as u64) as usize;
            s[at] = T::sym(g.below(7));
            if c.bulk_extra > 4000 && g.below(8) != 0 {
                // keep the buckets of large batches small
                for v in s.iter_mut() {
                    *v = T::sym(g.next());
                }
            }
            batch.push((100 + (k % (c.spread + 1).max(90)), s));
        }
    }
    if batch.len() > 100 {
        ctx.label("more than 100 documents in a batch");
    }
    let distinct: BTreeSet<u32> = batch.iter().map(|x| x.0).collect();
    if distinct.len() < batch.len() {
        ctx.label("repeated ids in the batch");
    }
    if batch.is_empty() {
        ctx.label("empty batch");
    }
    p.install(|| a.par_bulk_insert(batch.iter().map(|x| I::mk(x.0)).collect(), batch.iter().map(|x| x.1.clone()).collect()));
    p.install(|| a2.par_bulk_insert_pairs(batch.iter().map(|x| (I::mk(x.0), x.1.clone())).collect()));
    for (i, s) in &batch {
        b.insert(I::mk(*i), s.clone());
        m.insert(*i, s.clone());
    }
    let mut qs: Vec<Vec<T>> = h.probes.iter().map(|s| s.make::<T>(n)).collect();
    qs.extend(batch.iter().rev().take(if batch.len() > 4000 { 4 } else { 20 }).map(|x| x.1.clone()));
    qs.extend(m.live.values().take(if batch.len() > 4000 { 3 } else { 10 }).cloned());
    same("par_bulk_insert", &a, &b, &m, &qs, p, ctx)?;
    same("par_bulk_insert_pairs", &a2, &b, &m, &qs, p, ctx)?;
    // removal
    let mut rm: Vec<u32> = c.remove.clone();
    rm.extend(batch.iter().rev().take(c.bulk_extra as usize / 2).map(|x| x.0));
    let mut got = p.install(|| a.bulk_remove(&rm.iter().map(|i| I::mk(*i)).collect()));
    let mut want: Vec<Vec<T>> = rm.iter().filter_map(|i| b.remove(&I::mk(*i))).collect();
    for i in &rm {
        m.remove(*i);
    }
    if want.len() < rm.len() && !want.is_empty() {
        ctx.label("bulk removal with absent or repeated ids");
    }
    let key = |v: &Vec<T>| format!("{v:?}");
    got.sort_by_cached_key(key);
    want.sort_by_cached_key(key);
    ensure!(got == want, "bulk_remove returned {} signatures that differ from the {} removed one by one", got.len(), want.len());
    same("bulk_remove", &a, &b, &m, &qs, p, ctx)?;
    // many queries at once
    if c.nq > 0 && !m.live.is_empty() {
        let stored: Vec<&Vec<T>> = m.live.values().take(64).collect();
        let qs: Vec<Vec<T>> = (0..c.nq)
            .map(|_| {
                let mut q = stored[g.below(stored.len() as u64) as usize].clone();
                // agrees with a stored signature in one band only (any), or all but one, or differs
                let band = g.below(h.b as u64) as usize;
                let how = g.below(4);
                for (p, v) in q.iter_mut().enumerate() {
                    if (how == 0 && p / h.r == band) || (how == 1 && p / h.r != band) || (how == 2 && g.below(3) == 0) {
                        *v = T::sym(g.next());
                    }
                }
                q
            })
            .collect();
        ctx.label("thousands of queries in one bulk call");
        let bulk = p.install(|| a.par_bulk_query(&qs));
        let bulks = p.install(|| a.par_bulk_query_return_similarity(&qs));
        ensure!(bulk.len() == qs.len() && bulks.len() == qs.len(), "{} queries, {} / {} answers", qs.len(), bulk.len(), bulks.len());
        for (k, q) in qs.iter().enumerate() {
            let want = ids(a.query(q).into_iter());
            let got: BTreeSet<u32> = bulk[k].iter().map(|i| i.un()).collect();
            ensure!(got == want, "query {k} of {}: bulk answer {got:?}, single {want:?}", qs.len());
            let gs: BTreeMap<u32, u64> = bulks[k].iter().map(|(i, s)| (i.un(), s.to_bits())).collect();
            let ss: BTreeMap<u32, u64> = want.iter().map(|i| (*i, m.sim(&m.live[i], q).to_bits())).collect();
            ensure!(gs == ss && bulks[k].len() == gs.len(), "query {k} of {}: bulk similarity answer {gs:?}, expected {ss:?}", qs.len());
            ctx.cmp();
        }
    }
    // signatures
    let mut docs = c.docs.clone();
    for _ in 0..c.more_docs {
        let len = if g.below(5) == 0 { 0 } else { g.below(12) };
        docs.push((0..len).map(|_| g.below(300) as u16).collect());
    }
    if docs.len() > 64 && docs.iter().any(|d| d.is_empty()) {
        ctx.label("more than 64 documents, some empty");
    }
    let docs = &docs;
    let refs: Vec<&Vec<u16>> = docs.iter().collect();
    macro_rules! sig {
        ($t:ident) => {{
            let mh = $t::new_with_hasher_and_seed(n, FnvBuildHasher::default(), c.bulk_extra as u64);
            let single: Vec<_> = docs.iter().map(|d| mh.create_signature(d.iter())).collect();
            ensure!(p.install(|| mh.bulk_create_signature(docs)) == single, "bulk_create_signature differs from single signatures");
            ensure!(p.install(|| mh.bulk_create_signature_refs(&refs)) == single, "bulk_create_signature_refs differs from single signatures");
        }};
    }
    match h.combo % 4 {
        0 => sig!(MinHasher64V1),
        1 => sig!(MinHasher32),
        2 => sig!(MinHasher16),
        _ => sig!(MinHasher8),
    }
    Ok(())
}

impl Property for P {
    type Case = Case;
    const ID: &'static str = "C08";
    const RULE: &'static str = "prior contents + one batch in both bulk forms + one bulk removal, on pools of 1/2/3/8 threads; non-trivial if some query answers a proper non-empty subset";
    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        let w = OpW { insert: 1, bulk: 0, remove: 0, bulk_remove: 0, clear: 0, shrink: 0, bad: 0 };
        hist_strategy(w, 8)
            .prop_flat_map(|h| {
                let n = h.b * h.r;
                let id = prop_oneof![3 => 0u32..6, 2 => 0u32..30];
                (
                    Just(h),
                    prop::collection::vec((id.clone(), sig_strategy(n)), 0..16),
                    (prop_oneof![120 => Just(0u32), 40 => 1u32..40, 16 => 90u32..300, 3 => 300u32..4000], prop_oneof![Just(0u32), 0u32..65536], prop_oneof![100 => Just(0u16), 10 => 1u16..200, 1 => 200u16..3000]),
                    prop::collection::vec(id, 0..12),
                    0u8..4,
                    prop::collection::vec(prop::collection::vec(0u16..50, 0..8), 0..20),
                )
            })
            .prop_map(|(h, batch, (bulk_extra, spread, more_docs), remove, threads, docs)| Case { h, batch, bulk_extra, remove, threads, docs, more_docs, spread, nq: 0 })
            .boxed()
    }
    fn cases(t: Tier) -> u64 {
        if t == Tier::Quick { 32_000 } else { 640_000 }
    }
    fn large(t: Tier) -> Option<(BoxedStrategy<Case>, u64)> {
        let w = OpW { insert: 1, bulk: 0, remove: 0, bulk_remove: 0, clear: 0, shrink: 0, bad: 0 };
        let size = prop_oneof![4 => 4000u32..13_000, 1 => 13_000u32..20_000, 1 => 65_500u32..70_000];
        let s = hist_strategy(w, 8)
            .prop_flat_map(move |mut h| {
                h.b = h.b.min(8);
                h.r = h.r.min(4);
                (Just(h.clone()), prop::collection::vec((0u32..30, sig_strategy(h.b * h.r)), 1..16), size.clone(), any::<bool>(), 0u8..4, prop::collection::vec(0u32..30, 0..12), any::<bool>())
            })
            .prop_map(|(h, batch, size, queries, threads, remove, repeat)| Case {
                h, batch, remove, threads, docs: vec![], more_docs: 0,
                bulk_extra: if queries { 0 } else { size },
                spread: if repeat { size / 2 } else { size },
                nq: if queries { size } else { 0 },
            });
        Some((s.boxed(), if t == Tier::Quick { 64 } else { 640 }))
    }
    fn check(c: &Case, ctx: &mut Ctx) -> Res {
        gv::dispatch!(c.h, run, c, ctx)
    }
}
fn main() {
    run_main::<P>()
}
