use gaoya::minhash::*;
use gv::engine::*;
use gv::ensure;
use gv::mh::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::HashMap;

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Case {
    h: Hist,
    members: Vec<Vec<u32>>,
    /// further lists: every step-th id of a range
    #[serde(default)]
    ranges: Vec<(u32, u32, u8)>,
    /// further lists: (id, how often) blocks
    #[serde(default)]
    reps: Vec<Vec<(u32, u32)>>,
}
struct P;
fn run<T: Val, I: IdVal, C: IdContainer<I>>(c: &Case, ctx: &mut Ctx) -> Res {
    let h = &c.h;
    let mut x = construct::<T, I, C>(h);
    let mut m = Model::<T>::new(h.b, h.r, h.thr.get(h.b * h.r));
    for (k, op) in h.ops.iter().enumerate() {
        apply(h, op, &mut x, &mut m, false, ctx).map_err(|e| format!("op {k}: {e}"))?;
    }
    let long = c.ranges.iter().map(|(f, n, s)| (*f..f + *n).step_by((*s).max(1) as usize).collect::<Vec<u32>>());
    let reps = c.reps.iter().map(|l| l.iter().flat_map(|(i, n)| std::iter::repeat(*i).take(*n as usize)).collect::<Vec<u32>>());
    for l in c.members.iter().cloned().chain(long).chain(reps) {
        let l = &l;
        let sigs: Vec<&Vec<T>> = l.iter().filter_map(|i| m.live.get(i)).collect();
        if sigs.is_empty() {
            continue;
        }
        if sigs.len() < l.len() {
            ctx.label("unknown ids in the list");
        }
        let g = x.calculate_centroid(&l.iter().map(|i| I::mk(*i)).collect::<Vec<_>>());
        ctx.cmp();
        ensure!(g.len() == m.n(), "centroid has {} entries, signatures {}", g.len(), m.n());
        for k in 0..h.b {
            let rg = k * h.r..(k + 1) * h.r;
            let mut cnt: HashMap<&[T], usize> = HashMap::new();
            for s in &sigs {
                *cnt.entry(&s[rg.clone()]).or_default() += 1;
            }
            let max = *cnt.values().max().unwrap();
            let got = *cnt.get(&g[rg.clone()]).unwrap_or(&0);
            ensure!(got == max, "band {k} of the centroid of {} ids ({:?}..) is {:?}, occurring {got} times; the most frequent band occurs {max} times", l.len(), &l[..l.len().min(20)], &g[rg]);
            if max > 1 && max < sigs.len() {
                ctx.nontrivial();
            }
            if max > 1 && cnt.values().filter(|v| **v == max - 1).count() > 0 {
                ctx.label("runner-up one below the winner");
            }
        }
        if sigs.len() > 65_536 {
            ctx.label("more than 65536 members");
        }
        if sigs.len() > 256 {
            ctx.label("more than 256 members");
        }
        if sigs.iter().all(|s| *s == sigs[0]) {
            ctx.label("copies of one signature");
            ensure!(&g == sigs[0], "centroid of copies of {:?} is {g:?}", sigs[0]);
        }
    }
    Ok(())
}
impl Property for P {
    type Case = Case;
    const ID: &'static str = "C11";
    const RULE: &'static str = "index contents + lists of ids; non-trivial if in some band the most frequent value occurs more than once but not always";
    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        let w = OpW { insert: 10, bulk: 6, remove: 1, bulk_remove: 1, clear: 0, shrink: 0, bad: 0 };
        let id = prop_oneof![5 => 0u32..8, 2 => 0u32..14];
        (hist_strategy(w, 14), prop::collection::vec(prop::collection::vec(id, 1..16), 1..5), prop::collection::vec((0u32..40, prop_oneof![1u32..60, 1u32..3000], 1u8..4), 0..3)).prop_map(|(h, members, ranges)| Case { h, members, ranges, reps: vec![] }).boxed()
    }
    fn cases(t: Tier) -> u64 {
        if t == Tier::Quick { 240_000 } else { 4_800_000 }
    }
    fn large(t: Tier) -> Option<(BoxedStrategy<Case>, u64)> {
        let w = OpW { insert: 10, bulk: 6, remove: 1, bulk_remove: 1, clear: 0, shrink: 0, bad: 0 };
        let times = prop_oneof![3 => 1u32..600, 2 => 30_000u32..40_000, 3 => 65_400u32..70_000, 1 => 131_000u32..140_000];
        let reps = prop::collection::vec(prop::collection::vec((0u32..8, times), 2..5), 1..4);
        let a = (hist_strategy(w, 14), reps).prop_map(|(h, reps)| Case { h, members: vec![], ranges: vec![], reps });
        let b = (hist_large(w), prop::collection::vec((0u32..40, 1u32..70_000, 1u8..4), 1..3)).prop_map(|(h, ranges)| Case { h, members: vec![], ranges, reps: vec![] });
        Some((prop_oneof![3 => a, 1 => b].boxed(), if t == Tier::Quick { 160 } else { 1600 }))
    }
    fn check(c: &Case, ctx: &mut Ctx) -> Res {
        gv::dispatch!(c.h, run, c, ctx)
    }
}
fn main() {
    run_main::<P>()
}
