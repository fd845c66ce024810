use gaoya::minhash::*;
use gv::engine::*;
use gv::mh::*;
use proptest::prelude::*;

struct P;
fn run<T: Val, I: IdVal, C: IdContainer<I>>(h: &Hist, ctx: &mut Ctx) -> Res {
    let mut x = construct::<T, I, C>(h);
    let mut m = Model::<T>::new(h.b, h.r, h.thr.get(h.b * h.r));
    let u = universe(h);
    let every = h.ops.len() <= 14;
    for (k, op) in h.ops.iter().enumerate() {
        apply(h, op, &mut x, &mut m, false, ctx).map_err(|e| format!("op {k}: {e}"))?;
        if every || k + 1 == h.ops.len() {
            for q in probes(h, &m, 5) {
                check_membership(&x, &m, &q, ctx).map_err(|e| format!("after op {k}: {e}"))?;
            }
            for id in u.iter().rev().take(if m.live.len() > 5000 { 2 } else { 0 }).chain(u.iter().take(if m.live.len() > 5000 { 1 } else { 10 })) {
                check_by_id(&x, &m, *id, ctx).map_err(|e| format!("after op {k}: {e}"))?;
            }
        }
    }
    Ok(())
}

impl Property for P {
    type Case = Hist;
    const ID: &'static str = "C05";
    const RULE: &'static str = "operation history over one MinHash index; non-trivial if some query must return at least one but not all live ids";
    const ASSUMPTIONS: &'static [&'static str] = &["64-bit band-hash collisions between different band values do not occur"];
    fn strategy(_: Tier) -> BoxedStrategy<Hist> {
        hist_strategy(DEFAULT_W, 14)
    }
    fn cases(t: Tier) -> u64 {
        if t == Tier::Quick { 200_000 } else { 4_000_000 }
    }
    fn large(t: Tier) -> Option<(BoxedStrategy<Hist>, u64)> {
        Some((hist_large(DEFAULT_W), if t == Tier::Quick { 192 } else { 1920 }))
    }
    fn check(h: &Hist, ctx: &mut Ctx) -> Res {
        gv::dispatch!(h, run, h, ctx)
    }
}
fn main() {
    run_main::<P>()
}
