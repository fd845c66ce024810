use gaoya::minhash::*;
use gv::engine::*;
use gv::ensure;
use gv::mh::*;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::hash::BuildHasherDefault;

#[derive(Serialize, Deserialize, Clone, Debug)]
enum COp {
    Push(u32),
    Remove(u32),
}
#[derive(Serialize, Deserialize, Clone, Debug)]
enum Case {
    Container { ops: Vec<COp>, pre: Vec<u32>, string_ids: bool },
    Long { n: u32, step: u32, tail: Vec<(bool, u32)>, string_ids: bool },
    Index(Hist),
}
struct P;

fn container<I: IdVal, C: IdContainer<I>>(name: &str, ops: &[COp], pre: &[u32], ctx: &mut Ctx) -> Res {
    let every = 1 + ops.len() / if ops.len() > 2000 { 10 } else { 60 };
    let mut c = C::new();
    ensure!(c.is_empty() && c.len() == 0, "{name}: a new container is not empty");
    // pushes and removals per id; an id pushed more often than removed may or may not still be
    // there (sets drop duplicates), one removed as often as pushed must be gone.
    let mut copies: BTreeMap<u32, (u32, bool)> = BTreeMap::new();
    for (k, op) in ops.iter().enumerate() {
        match op {
            COp::Push(i) => {
                c.push(I::mk(*i));
                let e = copies.entry(*i).or_insert((0, false));
                e.0 += 1;
                e.1 = true;
            }
            COp::Remove(i) => {
                c.remove(&I::mk(*i));
                if let Some(e) = copies.get_mut(i) {
                    e.0 = e.0.saturating_sub(1);
                    e.1 = false;
                }
            }
        }
        if k % every != 0 && k + 1 < ops.len() {
            continue;
        }
        // (copies, last operation was a push)
        let must: BTreeSet<u32> = copies.iter().filter(|(_, e)| e.1).map(|x| *x.0).collect();
        let may: BTreeSet<u32> = copies.iter().filter(|(_, e)| e.0 > 0).map(|x| *x.0).collect();
        let upper: u32 = copies.values().map(|e| e.0).sum();
        let base: BTreeSet<u32> = pre.iter().copied().collect();
        let mut s: HashSet<I> = pre.iter().map(|i| I::mk(*i)).collect();
        c.copy_to(&mut s);
        let got: BTreeSet<u32> = s.iter().map(|i| i.un()).collect();
        ensure!(base.is_subset(&got), "{name}: copy_to dropped elements of the target set");
        let mut fresh: HashSet<I> = HashSet::new();
        c.copy_to(&mut fresh);
        let f: BTreeSet<u32> = fresh.iter().map(|i| i.un()).collect();
        between(name, &f, &must, &may)?;
        ensure!(got == base.union(&f).copied().collect(), "{name}: copy_to into a filled set gives {got:?}, into an empty one {f:?}");
        let preids: Vec<I> = pre.iter().map(|i| I::mk(*i)).collect();
        let mut r: HashSet<&I, BuildHasherDefault<std::collections::hash_map::DefaultHasher>> = preids.iter().collect();
        c.copy_refs_to(&mut r);
        let rr: BTreeSet<u32> = r.iter().map(|i| i.un()).collect();
        ensure!(rr == got, "{name}: copy_refs_to gives {rr:?}, copy_to {got:?}");
        ensure!(c.len() >= f.len() && c.len() <= upper as usize, "{name}: len {} for {} distinct ids ({} copies)", c.len(), f.len(), upper);
        ensure!(c.is_empty() == f.is_empty(), "{name}: is_empty {} but holds {f:?}", c.is_empty());
        ensure!((c.len() == 0) == c.is_empty(), "{name}: len {} is_empty {}", c.len(), c.is_empty());
        ctx.cmp();
        if f.len() >= 2 && matches!(op, COp::Remove(_)) {
            ctx.nontrivial();
        }
        if f.len() > 4 {
            ctx.label("beyond inline capacity 4");
        }
        if upper as usize > f.len() {
            ctx.label("duplicate pushes");
        }
    }
    Ok(())
}

type Ix<C> = (MinHashIndex<u32, u32, C>, Model<u32>);
fn mk<C: IdContainer<u32>>(h: &Hist) -> Ix<C> {
    (construct::<u32, u32, C>(h), Model::new(h.b, h.r, h.thr.get(h.b * h.r)))
}
type Answers = Vec<BTreeSet<u32>>;
fn step<C: IdContainer<u32>>(h: &Hist, x: &mut Ix<C>, k: usize, ctx: &mut Ctx) -> Result<Answers, String> {
    if let Some(op) = h.ops.get(k) {
        apply(h, op, &mut x.0, &mut x.1, true, ctx)?;
    }
    let mut out = vec![];
    for q in probes(h, &x.1, 4) {
        check_membership(&x.0, &x.1, &q, ctx)?;
        check_ranked(&x.0, &x.1, &q, h.k as usize, ctx)?;
        out.push(ids(x.0.query(&q).into_iter()));
        out.push(x.0.query_top_k(&q, 100_000).iter().map(|p| p.0).collect());
    }
    out.push(x.0.get_id_signature_map().keys().copied().collect());
    Ok(out)
}

fn index(h: &Hist, ctx: &mut Ctx) -> Res {
    let mut a = mk::<HashSetContainer<u32>>(h);
    let mut b = mk::<VecContainer<u32>>(h);
    let mut c = mk::<SmallVecContainer<u32, 1>>(h);
    let mut d = mk::<SmallVecContainer<u32, 3>>(h);
    let mut e = mk::<UserContainer<u32>>(h);
    for k in 0..h.ops.len() {
        let ra = step(h, &mut a, k, ctx).map_err(|m| format!("set container, op {k}: {m}"))?;
        let rb = step(h, &mut b, k, ctx).map_err(|m| format!("vector container, op {k}: {m}"))?;
        let rc = step(h, &mut c, k, ctx).map_err(|m| format!("small vector container (1), op {k}: {m}"))?;
        let rd = step(h, &mut d, k, ctx).map_err(|m| format!("small vector container (3), op {k}: {m}"))?;
        let re = step(h, &mut e, k, ctx).map_err(|m| format!("user container, op {k}: {m}"))?;
        if h.no_overwrite {
            ctx.cmp();
            ensure!(ra == rb && ra == rc && ra == rd && ra == re, "after op {k} the containers answer differently: {ra:?} {rb:?} {rc:?} {rd:?} {re:?}");
            let (za, zb) = (a.0.band_sizes().sizes, b.0.band_sizes().sizes);
            ensure!(za == zb && za == c.0.band_sizes().sizes && za == d.0.band_sizes().sizes && za == e.0.band_sizes().sizes, "after op {k} the containers hold different buckets");
        }
    }
    ctx.label("index history");
    Ok(())
}

impl Property for P {
    type Case = Case;
    const ID: &'static str = "C09";
    const RULE: &'static str = "push/remove sequence on every container, or one index history on five containers; non-trivial if a removal leaves at least two ids, or a query answers a proper subset";
    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        let id = || prop_oneof![3 => 0u32..5, 1 => 0u32..20];
        let op = prop_oneof![3 => id().prop_map(COp::Push), 2 => id().prop_map(COp::Remove)];
        let cont = (prop::collection::vec(op, 0..40), prop::collection::vec(id(), 0..4), any::<bool>()).prop_map(|(ops, pre, string_ids)| Case::Container { ops, pre, string_ids });
        let w = OpW { bad: 0, shrink: 0, remove: 7, ..DEFAULT_W };
        // long runs: many different ids, then some of them removed
        let long = (1u32..1500, 1u32..5, prop::collection::vec((any::<bool>(), 0u32..1500), 0..30), any::<bool>()).prop_map(|(n, step, tail, string_ids)| Case::Long { n, step, tail, string_ids });
        prop_oneof![500 => cont, 2 => long, 500 => hist_strategy(w, 12).prop_map(Case::Index)].boxed()
    }
    fn cases(t: Tier) -> u64 {
        if t == Tier::Quick { 50_000 } else { 1_000_000 }
    }
    fn large(t: Tier) -> Option<(BoxedStrategy<Case>, u64)> {
        let n = prop_oneof![1500u32..9000, 9000u32..20_000];
        let long = (n, 1u32..5, prop::collection::vec((any::<bool>(), 0u32..20_000), 0..30), any::<bool>()).prop_map(|(n, step, tail, string_ids)| Case::Long { n, step, tail, string_ids });
        let w = OpW { bad: 0, shrink: 0, remove: 7, ..DEFAULT_W };
        Some((prop_oneof![2 => long, 1 => hist_large(w).prop_map(Case::Index)].boxed(), if t == Tier::Quick { 64 } else { 640 }))
    }
    fn check(c: &Case, ctx: &mut Ctx) -> Res {
        match c {
            Case::Long { .. } | Case::Container { .. } => {
                let (ops, pre, string_ids) = match c {
                    Case::Container { ops, pre, string_ids } => (ops.clone(), pre.clone(), string_ids),
                    Case::Long { n, step, tail, string_ids } => {
                        let mut ops: Vec<COp> = (0..*n).map(COp::Push).collect();
                        ops.extend((0..*n).step_by(*step as usize).map(COp::Remove));
                        ops.extend(tail.iter().map(|(p, i)| if *p { COp::Push(*i) } else { COp::Remove(*i) }));
                        (ops, vec![], string_ids)
                    }
                    _ => unreachable!(),
                };
                let (ops, pre) = (&ops[..], &pre[..]);
                macro_rules! all {
                    ($i:ty) => {{
                        container::<$i, HashSetContainer<$i>>("HashSetContainer", ops, pre, ctx)?;
                        container::<$i, VecContainer<$i>>("VecContainer", ops, pre, ctx)?;
                        container::<$i, SmallVecContainer<$i, 1>>("SmallVecContainer<1>", ops, pre, ctx)?;
                        container::<$i, SmallVecContainer<$i, 4>>("SmallVecContainer<4>", ops, pre, ctx)?;
                        container::<$i, SmallVecContainer<$i, 16>>("SmallVecContainer<16>", ops, pre, ctx)?;
                        container::<$i, UserContainer<$i>>("UserContainer", ops, pre, ctx)
                    }};
                }
                if *string_ids { all!(String) } else { all!(u32) }
            }
            Case::Index(h) => index(h, ctx),
        }
    }
}
fn main() {
    run_main::<P>()
}
