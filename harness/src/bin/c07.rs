use gaoya::minhash::*;
use gv::engine::*;
use gv::mh::*;
use proptest::prelude::*;

struct P;
fn run<T: Val, I: IdVal, C: IdContainer<I>>(h: &Hist, ctx: &mut Ctx) -> Res {
    let mut x = construct::<T, I, C>(h);
    let mut m = Model::<T>::new(h.b, h.r, h.thr.get(h.b * h.r));
    let u = universe(h);
    let mut peak = 0;
    for (k, op) in h.ops.iter().enumerate() {
        apply(h, op, &mut x, &mut m, true, ctx).map_err(|e| format!("op {k}: {e}"))?;
        check_book(&x, &m, &u, ctx).map_err(|e| format!("after op {k}: {e}"))?;
        peak = peak.max(m.live.len());
        if m.live.len() < peak && !m.live.is_empty() {
            ctx.nontrivial();
            if m.ghosts.is_empty() {
                ctx.label("removal without any overwrite");
            }
        }
    }
    // finally remove everything that is left, one by one: returned signatures and released buckets
    let left: Vec<u32> = m.live.keys().copied().collect();
    if h.k % 2 == 0 {
        let every = 1 + left.len() / 30;
        let all = left.len();
        for (k, i) in left.into_iter().take(7000).enumerate() {
            let g = x.remove(&I::mk(i));
            let e = m.remove(i);
            gv::ensure!(g == e, "remove({i}) returned {g:?}, expected {e:?}");
            if k % every == 0 || k + 1 == all.min(7000) {
                check_book(&x, &m, &u, ctx)?;
            }
        }
    } else {
        let mut req: Vec<I> = vec![I::mk(SPARE)];
        req.extend(left.iter().map(|i| I::mk(*i)));
        let g = x.bulk_remove(&req);
        gv::ensure!(g.len() == left.len(), "bulk_remove of all returned {} of {}", g.len(), left.len());
        for i in left {
            m.remove(i);
        }
        check_book(&x, &m, &u, ctx)?;
    }
    Ok(())
}

impl Property for P {
    type Case = Hist;
    const ID: &'static str = "C07";
    const RULE: &'static str = "operation history ending with the removal of everything; non-trivial if documents were removed while others stayed";
    const ASSUMPTIONS: &'static [&'static str] = &["64-bit band-hash collisions between different band values do not occur"];
    fn strategy(_: Tier) -> BoxedStrategy<Hist> {
        hist_strategy(OpW { bad: 0, remove: 7, bulk_remove: 5, ..DEFAULT_W }, 16)
    }
    fn cases(t: Tier) -> u64 {
        if t == Tier::Quick { 240_000 } else { 4_800_000 }
    }
    fn large(t: Tier) -> Option<(BoxedStrategy<Hist>, u64)> {
        Some((hist_large(OpW { bad: 0, remove: 7, bulk_remove: 5, ..DEFAULT_W }), if t == Tier::Quick { 192 } else { 1920 }))
    }
    fn check(h: &Hist, ctx: &mut Ctx) -> Res {
        gv::dispatch!(h, run, h, ctx)
    }
}
fn main() {
    run_main::<P>()
}
