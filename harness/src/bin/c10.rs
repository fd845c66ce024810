use gaoya::minhash::*;
use gv::engine::*;
use gv::ensure;
use gv::mh::*;
use proptest::prelude::*;

struct P;
fn agree<T: Val, I: IdVal, C: IdContainer<I>>(x: &MinHashIndex<T, I, C>, y: &MinHashIndex<T, I, C>, m: &Model<T>, h: &Hist, ctx: &mut Ctx) -> Res {
    ensure!(x.size() == y.size(), "size {} but {} without capacity calls", x.size(), y.size());
    ensure!(x.band_sizes().sizes == y.band_sizes().sizes, "buckets {:?} but {:?} without capacity calls", x.band_sizes().sizes, y.band_sizes().sizes);
    ensure!(x.get_id_signature_map() == y.get_id_signature_map(), "stored signatures differ");
    ensure!(x.capacity() >= x.size(), "capacity {} below size {}", x.capacity(), x.size());
    for q in probes(h, m, 6) {
        ctx.cmp();
        let (a, b) = (ids(x.query(&q).into_iter()), ids(y.query(&q).into_iter()));
        ensure!(a == b, "query answers {a:?} but {b:?} without capacity calls");
        let t = |z: &MinHashIndex<T, I, C>| {
            let mut v: Vec<(u32, u64)> = z.query_top_k(&q, 100_000).iter().map(|(i, s)| (i.un(), s.to_bits())).collect();
            v.sort();
            v
        };
        ensure!(t(x) == t(y), "top-k answers differ");
        check_membership(x, m, &q, ctx)?;
    }
    Ok(())
}

fn run<T: Val, I: IdVal, C: IdContainer<I>>(h: &Hist, ctx: &mut Ctx) -> Res {
    // x gets the capacity hint, the shrink calls and clear; y neither, and a new index for clear
    let plain = Hist { ctor: Ctor::New, ..h.clone() };
    let mut x = construct::<T, I, C>(h);
    if let Ctor::Cap(c, _) = h.ctor {
        ensure!(x.capacity() >= c as usize, "initial capacity {c} requested, {} available", x.capacity());
    }
    let mut y = construct::<T, I, C>(&plain);
    let mut m = Model::<T>::new(h.b, h.r, h.thr.get(h.b * h.r));
    let mut my = Model::<T>::new(h.b, h.r, h.thr.get(h.b * h.r));
    ctx.nontrivial = false;
    let mut hit = false;
    for (k, op) in h.ops.iter().enumerate() {
        match op {
            Op::ShrinkToFit | Op::ShrinkTo(_) => {
                let distinct: std::collections::HashSet<&Vec<T>> = m.live.values().collect();
                let kind = match (m.live.len(), distinct.len()) {
                    (0, _) => "empty",
                    (1, _) => "single",
                    (_, 1) => "all-duplicate",
                    (a, b) if a == b => "all-distinct",
                    _ => "mixed",
                };
                ctx.label(format!("shrink of {kind} index"));
                hit |= !m.live.is_empty();
                apply(h, op, &mut x, &mut m, true, ctx).map_err(|e| format!("op {k}: {e}"))?;
            }
            Op::Clear => {
                x.clear();
                m.clear();
                y = construct::<T, I, C>(&plain);
                my.clear();
                hit = true;
                ctx.label("clear");
                ensure!(x.size() == 0 && x.band_sizes().sizes.iter().all(|s| *s == 0), "op {k}: a cleared index is not empty");
            }
            _ => {
                apply(h, op, &mut x, &mut m, true, ctx).map_err(|e| format!("op {k}: {e}"))?;
                apply(&plain, op, &mut y, &mut my, true, ctx).map_err(|e| format!("op {k} (plain): {e}"))?;
            }
        }
        agree(&x, &y, &m, h, ctx).map_err(|e| format!("after op {k}: {e}"))?;
    }
    ctx.nontrivial = hit || matches!(h.ctor, Ctor::Cap(..)) && !m.live.is_empty();
    Ok(())
}

impl Property for P {
    type Case = Hist;
    const ID: &'static str = "C10";
    const RULE: &'static str = "one history on two indexes, one of them with capacity hint / shrink / clear calls; non-trivial if such a call met a non-empty index";
    fn strategy(_: Tier) -> BoxedStrategy<Hist> {
        (hist_strategy(OpW { bad: 0, shrink: 4, clear: 2, ..DEFAULT_W }, 14), 0u8..4)
            .prop_map(|(mut h, c)| {
                // more capacity hints than other properties use
                if c == 0 {
                    h.ctor = Ctor::Cap(h.k as u32 * 37, c as f64);
                }
                h
            })
            .boxed()
    }
    fn cases(t: Tier) -> u64 {
        if t == Tier::Quick { 160_000 } else { 3_200_000 }
    }
    fn large(t: Tier) -> Option<(BoxedStrategy<Hist>, u64)> {
        let w = OpW { bad: 0, shrink: 4, clear: 2, ..DEFAULT_W };
        // large hints as well as large contents
        let s = prop_oneof![
            1 => (hist_large(w), 0u32..200_000).prop_map(|(mut h, c)| {
                if c % 2 == 0 {
                    h.ctor = Ctor::Cap(c, 1.0);
                }
                h
            }),
            2 => (hist_strategy(w, 10), prop_oneof![1000u32..20_000, 1000u32..100_000], 0u32..=100).prop_map(|(mut h, c, p)| {
                h.ctor = Ctor::Cap(c.min(400_000 / h.b as u32), p as f64 / 100.0);
                h
            }),
        ];
        Some((s.boxed(), if t == Tier::Quick { 96 } else { 960 }))
    }
    fn check(h: &Hist, ctx: &mut Ctx) -> Res {
        gv::dispatch!(h, run, h, ctx)
    }
}
fn main() {
    run_main::<P>()
}
