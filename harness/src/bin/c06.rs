use gaoya::minhash::*;
use gv::engine::*;
use gv::mh::*;
use proptest::prelude::*;

struct P;
fn run<T: Val, I: IdVal, C: IdContainer<I>>(h: &Hist, ctx: &mut Ctx) -> Res {
    let mut x = construct::<T, I, C>(h);
    let mut m = Model::<T>::new(h.b, h.r, h.thr.get(h.b * h.r));
    let every = h.ops.len() <= 14;
    for (k, op) in h.ops.iter().enumerate() {
        apply(h, op, &mut x, &mut m, false, ctx).map_err(|e| format!("op {k}: {e}"))?;
        if every || k + 1 == h.ops.len() {
            let qs = probes(h, &m, 4);
            for q in &qs {
                check_ranked(&x, &m, q, h.k as usize, ctx).map_err(|e| format!("after op {k}: {e}"))?;
            }
            let l = x.par_bulk_query_return_similarity(&qs);
            gv::ensure!(l.len() == qs.len(), "bulk similarity query returned {} lists for {}", l.len(), qs.len());
            for (q, l) in qs.iter().zip(&l) {
                let (must, may) = (m.within(m.must_cand(q), q), m.within(m.may_cand(q), q));
                check_simlist("par_bulk_query_return_similarity", &m, q, l, &must, &may).map_err(|e| format!("after op {k}: {e}"))?;
            }
        }
    }
    Ok(())
}

impl Property for P {
    type Case = Hist;
    const ID: &'static str = "C06";
    const RULE: &'static str = "operation history over one MinHash index; non-trivial if some ranked answer contains at least two different similarities";
    const ASSUMPTIONS: &'static [&'static str] = &["64-bit band-hash collisions between different band values do not occur"];
    fn strategy(_: Tier) -> BoxedStrategy<Hist> {
        hist_strategy(OpW { bad: 0, ..DEFAULT_W }, 12)
    }
    fn cases(t: Tier) -> u64 {
        if t == Tier::Quick { 100_000 } else { 2_000_000 }
    }
    fn large(t: Tier) -> Option<(BoxedStrategy<Hist>, u64)> {
        Some((hist_large(OpW { bad: 0, ..DEFAULT_W }), if t == Tier::Quick { 160 } else { 1600 }))
    }
    fn check(h: &Hist, ctx: &mut Ctx) -> Res {
        gv::dispatch!(h, run, h, ctx)
    }
}
fn main() {
    run_main::<P>()
}
