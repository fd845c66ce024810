use gaoya::simhash::*;
use gv::engine::*;
use gv::ensure;
use gv::mh::IdVal;
use gv::sh::*;
use proptest::prelude::*;
use std::collections::BTreeSet;

struct P;
fn run<S: SBits, I: IdVal>(c: &SHist, ctx: &mut Ctx) -> Res {
    let mut x = SimHashIndex::<S, I>::new(c.blocks, c.dist);
    let mut m = SModel::<S>::default();
    let check = |x: &SimHashIndex<S, I>, m: &SModel<S>, ctx: &mut Ctx| -> Res {
        for q in queries::<S>(c, m) {
            let want = m.within(&q, c.dist);
            let a: BTreeSet<u32> = x.query(&q).into_iter().map(|i| i.un()).collect();
            let o: BTreeSet<u32> = x.query_owned(&q).into_iter().map(|i| i.un()).collect();
            ctx.cmp();
            for (name, got) in [("query", &a), ("query_owned", &o)] {
                ensure!(
                    *got == want,
                    "{name}: {} blocks, distance {}: missing {:?}, unexpected {:?}",
                    c.blocks,
                    c.dist,
                    want.difference(got).map(|i| (*i, m.dist(*i, &q))).collect::<Vec<_>>(),
                    got.difference(&want).map(|i| (*i, m.live.get(i).map(|s| dist(s, &q)))).collect::<Vec<_>>()
                );
            }
            if m.live.values().any(|s| dist(s, &q) == c.dist) {
                ctx.label("entry exactly at the radius");
            }
            if m.live.values().any(|s| dist(s, &q) == c.dist + 1) {
                ctx.label("entry one bit beyond the radius");
            }
            if !want.is_empty() && want.len() < m.live.len() {
                ctx.nontrivial();
            }
        }
        Ok(())
    };
    for (k, op) in c.ops.iter().enumerate() {
        apply(c, op, &mut x, &mut m, ctx);
        if c.ops.len() <= 12 || k + 1 == c.ops.len() {
            check(&x, &m, ctx).map_err(|e| format!("after op {k}: {e}"))?;
        }
    }
    if c.ops.is_empty() {
        check(&x, &m, ctx)?;
    }
    ctx.label(if S::W == 64 { "64 bit" } else { "128 bit" });
    if c.blocks > 32 {
        ctx.label("more than 32 blocks");
    }
    if S::W % c.blocks != 0 {
        ctx.label("blocks of unequal width");
    }
    Ok(())
}

impl Property for P {
    type Case = SHist;
    const ID: &'static str = "C14";
    const RULE: &'static str = "history of insertions into one SimHash index; non-trivial if some query has both entries inside and outside the radius";
    fn strategy(t: Tier) -> BoxedStrategy<SHist> {
        shist(if t == Tier::Quick { 260 } else { 1100 })
    }
    fn cases(t: Tier) -> u64 {
        if t == Tier::Quick { 160_000 } else { 3_200_000 }
    }
    fn large(t: Tier) -> Option<(BoxedStrategy<SHist>, u64)> {
        Some((shist_large(), if t == Tier::Quick { 48 } else { 480 }))
    }
    fn check(c: &SHist, ctx: &mut Ctx) -> Res {
        match (c.wide, c.string_ids) {
            (true, true) => run::<u128, String>(c, ctx),
            (true, false) => run::<u128, u32>(c, ctx),
            (false, true) => run::<u64, String>(c, ctx),
            (false, false) => run::<u64, u32>(c, ctx),
        }
    }
}
fn main() {
    run_main::<P>()
}
