use gaoya::simhash::*;
use gv::engine::*;
use gv::ensure;
use gv::mh::IdVal;
use gv::sh::*;
use proptest::prelude::*;
use std::collections::BTreeSet;
use std::sync::OnceLock;

struct P;
fn pool(i: u8) -> &'static rayon::ThreadPool {
    static POOLS: OnceLock<Vec<rayon::ThreadPool>> = OnceLock::new();
    let v = POOLS.get_or_init(|| [1, 2, 3, 8].iter().map(|n| rayon::ThreadPoolBuilder::new().num_threads(*n).build().unwrap()).collect());
    &v[i as usize % v.len()]
}

fn ranked<S: SBits, I: IdVal>(what: &str, l: &[(I, usize)], plain: &BTreeSet<u32>, m: &SModel<S>, q: &S) -> Res {
    let l: Vec<(u32, usize)> = l.iter().map(|x| (x.0.un(), x.1)).collect();
    let got: BTreeSet<u32> = l.iter().map(|x| x.0).collect();
    ensure!(got.len() == l.len(), "{what}: repeated ids {l:?}");
    ensure!(got == *plain, "{what}: ids {got:?}, plain query {plain:?}");
    for (i, d) in &l {
        ensure!(m.live.contains_key(i) && m.dist(*i, q) == *d, "{what}: id {i} reported at distance {d}, true {:?}", m.live.get(i).map(|s| dist(s, q)));
    }
    ensure!(l.windows(2).all(|w| w[0].1 <= w[1].1), "{what}: not sorted by distance {l:?}");
    Ok(())
}

fn run<S: SBits, I: IdVal>(c: &SHist, ctx: &mut Ctx) -> Res {
    // x as the history says, a one by one, b everything in one bulk call of the other form
    let p = pool(c.threads);
    let (mut x, mut a) = (SimHashIndex::<S, I>::new(c.blocks, c.dist), SimHashIndex::<S, I>::new(c.blocks, c.dist));
    let mut m = SModel::<S>::default();
    let mut all: Vec<(u32, S)> = vec![];
    for (k, op) in c.ops.iter().enumerate() {
        let before = m.live.len();
        p.install(|| apply(c, op, &mut x, &mut m, ctx));
        all.extend(op.pairs::<S>(c));
        ensure!(x.size() == m.live.len(), "after op {k}: size {} but {} distinct ids inserted (was {before})", x.size(), m.live.len());
    }
    for (i, s) in &all {
        a.insert(I::mk(*i), *s);
    }
    let mut b = SimHashIndex::<S, I>::new(c.blocks, c.dist);
    if c.threads % 2 == 0 {
        p.install(|| b.par_bulk_insert(all.iter().map(|x| I::mk(x.0)).collect(), all.iter().map(|x| x.1).collect()));
    } else {
        p.install(|| b.par_bulk_insert_pairs(all.iter().map(|x| (I::mk(x.0), x.1)).collect()));
    }
    ensure!(a.size() == m.live.len() && b.size() == m.live.len(), "sizes {} (single) {} (bulk), {} distinct ids", a.size(), b.size(), m.live.len());
    let mut qs = queries::<S>(c, &m);
    qs.extend(m.live.values().skip(3).take(if m.live.len() > 5000 { 2 } else { 20 }).copied());
    let bulk = p.install(|| x.par_bulk_query(&qs));
    let bulkd = p.install(|| x.par_bulk_query_return_distance(&qs));
    ensure!(bulk.len() == qs.len() && bulkd.len() == qs.len(), "{} / {} bulk answers for {} queries", bulk.len(), bulkd.len(), qs.len());
    for (k, q) in qs.iter().enumerate() {
        ctx.cmp();
        let plain: BTreeSet<u32> = x.query(q).into_iter().map(|i| i.un()).collect();
        for (name, y) in [("single", &a), ("bulk", &b)] {
            let o: BTreeSet<u32> = y.query(q).into_iter().map(|i| i.un()).collect();
            ensure!(o == plain, "query {k}: {plain:?} but {o:?} after {name} insertion");
        }
        let l = x.query_return_distance(q);
        ranked("query_return_distance", &l, &plain, &m, q)?;
        let got: BTreeSet<u32> = bulk[k].iter().map(|i| i.un()).collect();
        ensure!(got == plain, "par_bulk_query {k}: {got:?}, single query {plain:?}");
        ranked("par_bulk_query_return_distance", &bulkd[k], &plain, &m, q)?;
        match x.query_one(q) {
            None => ensure!(plain.is_empty(), "query_one found nothing, plain query {plain:?}"),
            Some((i, d)) => {
                let i = &i.un();
                ensure!(plain.contains(i), "query_one returned {i}, plain query {plain:?}");
                ensure!(m.dist(*i, q) == d, "query_one reported distance {d} for {i}, true {}", m.dist(*i, q));
                let best = plain.iter().map(|j| m.dist(*j, q)).min().unwrap();
                ensure!(d == best, "query_one returned distance {d}, {best} is available");
            }
        }
        let ds: BTreeSet<usize> = l.iter().map(|x| x.1).collect();
        if ds.len() >= 2 {
            ctx.nontrivial();
        }
        if plain.is_empty() {
            ctx.label("empty answer");
        }
    }
    Ok(())
}

impl Property for P {
    type Case = SHist;
    const ID: &'static str = "C15";
    const RULE: &'static str = "history of insertions on three indexes (as generated, one by one, all in bulk), pools of 1/2/3/8 threads; non-trivial if some ranked answer holds two different distances";
    fn strategy(_: Tier) -> BoxedStrategy<SHist> {
        shist(130)
    }
    fn cases(t: Tier) -> u64 {
        if t == Tier::Quick { 96_000 } else { 1_920_000 }
    }
    fn large(t: Tier) -> Option<(BoxedStrategy<SHist>, u64)> {
        Some((shist_large(), if t == Tier::Quick { 32 } else { 320 }))
    }
    fn check(c: &SHist, ctx: &mut Ctx) -> Res {
        match (c.wide, c.string_ids) {
            (true, true) => run::<u128, String>(c, ctx),
            (true, false) => run::<u128, u32>(c, ctx),
            (false, true) => run::<u64, String>(c, ctx),
            (false, false) => run::<u64, u32>(c, ctx),
        }
    }
}
fn main() {
    run_main::<P>()
}
