use gaoya::minhash::*;
use gv::engine::*;
use gv::ensure;
use gv::gens;
use gv::rng::Sm;
use gv::mh::Val;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeSet;
use std::fmt::Debug;
use std::hash::Hash;
use std::panic::{catch_unwind, AssertUnwindSafe};

#[derive(Serialize, Deserialize, Clone, Debug)]
enum Case {
    Sig { ty: u8, a: Vec<u8>, /* same position equal? */ diff: Vec<bool>, thr: Thr, extra: u8 },
    Sets { kind: u8, common: Vec<String>, a: Vec<String>, b: Vec<String>, dup: u8 },
    Nums { a: Vec<u64>, b: Vec<u64> },
    /// long inputs derived from a seed: sizes, value range
    LongSets { seed: u64, na: u32, nb: u32, span: u64 },
    LongSig { ty: u8, seed: u64, n: u32, differ: u32, thr: Thr },
}
#[derive(Serialize, Deserialize, Clone, Debug)]
enum Thr {
    /// (matches + delta) / n
    Near(i8),
    Frac(u16),
    Float(f64),
}
struct P;

fn sigs<T: Val>(a: &[u8], diff: &[bool], thr: &Thr, extra: u8, ctx: &mut Ctx) -> Res {
    let n = a.len();
    let x: Vec<T> = a.iter().map(|s| T::sym(*s as u64)).collect();
    let y: Vec<T> = x.iter().zip(diff).map(|(v, d)| if *d { if *v == T::max_value() { T::min_value() } else { *v + T::one() } } else { *v }).collect();
    let m = diff.iter().take(n).filter(|d| !**d).count();
    let want = m as f64 / n as f64;
    ctx.cmp();
    let (s1, s2) = (compute_minhash_similarity(&x, &y), compute_minhash_similarity(&y, &x));
    ensure!((s1 - want).abs() < 1e-12, "similarity {s1}, {m} of {n} positions agree");
    ensure!(s1 == s2, "similarity is not symmetric: {s1} {s2}");
    let (d1, d2) = (compute_minhash_distance(&x, &y), compute_minhash_distance(&y, &x));
    ensure!((d1 - (1.0 - want)).abs() < 1e-12 && d1 == d2, "distance {d1} / {d2}, expected {}", 1.0 - want);
    ensure!((s1 == 1.0) == (x == y), "similarity {s1} for equal={}", x == y);
    ensure!(compute_minhash_similarity(&x, &x) == 1.0 && compute_minhash_distance(&x, &x) == 0.0, "self similarity is not 1");
    let t = match thr {
        Thr::Near(d) => ((m as i64 + *d as i64).clamp(0, n as i64)) as f64 / n as f64,
        Thr::Frac(k) => (*k as usize % (n + 1)) as f64 / n as f64,
        Thr::Float(f) => *f,
    };
    let g = similarity_greater_than_threshold(&x, &y, t);
    // only when the answer does not hinge on the last rounding of t * n
    let exact = s1 >= t;
    let near = (s1 - t).abs() < 1e-12 && s1 != t;
    if !near {
        ensure!(g == exact, "threshold predicate says {g}: similarity {m}/{n} = {s1}, threshold {t}");
        ensure!(g == similarity_greater_than_threshold(&y, &x, t), "threshold predicate is not symmetric");
    }
    if s1 == t {
        ctx.label("threshold exactly at the similarity");
    }
    if m > 0 && m < n {
        ctx.nontrivial();
    }
    // different lengths are refused
    let mut z = y.clone();
    if extra % 2 == 0 && n > 1 {
        z.truncate(n - 1)
    } else {
        for k in 0..=(extra as u64) {
            z.push(T::sym(k))
        }
    }
    for (p, q) in [(&x, &z), (&z, &x)] {
        ensure!(catch_unwind(AssertUnwindSafe(|| compute_minhash_similarity(p, q))).is_err(), "similarity of lengths {} and {} computed", p.len(), q.len());
        ensure!(catch_unwind(AssertUnwindSafe(|| compute_minhash_distance(p, q))).is_err(), "distance of lengths {} and {} computed", p.len(), q.len());
        ensure!(catch_unwind(AssertUnwindSafe(|| similarity_greater_than_threshold(p, q, t))).is_err(), "threshold predicate of lengths {} and {} computed", p.len(), q.len());
    }
    Ok(())
}

fn jac<T: Hash + Eq + Ord + Clone + Debug>(a: &[T], b: &[T], ctx: &mut Ctx) -> Res {
    let (sa, sb): (BTreeSet<&T>, BTreeSet<&T>) = (a.iter().collect(), b.iter().collect());
    let u = sa.union(&sb).count();
    if u == 0 {
        return Ok(());
    }
    let i = sa.intersection(&sb).count();
    let want = (i as f64 / u as f64) as f32; // sets are small enough to count exactly in f32
    ctx.cmp();
    let s1 = compute_jaccard_similarity(a.iter(), b.iter());
    let s2 = compute_jaccard_similarity(b.iter(), a.iter());
    ensure!((s1 - want).abs() <= 2e-7 && s1 == s2, "jaccard {s1} / {s2}, expected {i}/{u}");
    ensure!((s1 == 1.0) == (sa == sb), "jaccard {s1} for equal={}", sa == sb);
    let d = compute_jaccard_distance(a.iter(), b.iter());
    ensure!((d - (1.0 - want)).abs() <= 4e-7, "jaccard distance {d}, expected 1 - {i}/{u}");
    ensure!((0.0..=1.0).contains(&s1) && (0.0..=1.0).contains(&d), "jaccard {s1} distance {d} outside [0,1]");
    let owned = compute_jaccard_similarity(a.iter().cloned(), b.iter().cloned());
    ensure!(owned == s1, "jaccard of owned and borrowed items differ: {owned} {s1}");
    if i > 0 && i < u {
        ctx.nontrivial();
        ctx.label("overlapping sets");
    }
    if a.len() > sa.len() || b.len() > sb.len() {
        ctx.label("repeated elements");
    }
    if a.is_empty() || b.is_empty() {
        ctx.label("one side empty");
    }
    Ok(())
}

impl Property for P {
    type Case = Case;
    const ID: &'static str = "C03";
    const RULE: &'static str = "pair of signatures with a threshold, or pair of collections; non-trivial if they agree in part";
    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        let n = prop_oneof![5 => 1usize..12, 3 => 1usize..130, 1 => 200usize..700];
        let thr = prop_oneof![
            4 => (-2i8..=2).prop_map(Thr::Near),
            2 => (0u16..700).prop_map(Thr::Frac),
            2 => (0u32..=1000).prop_map(|x| Thr::Float(x as f64 / 1000.0)),
            1 => (0.0f64..=1.0).prop_map(Thr::Float),
            1 => prop::sample::select(vec![1.0 + 1e-9, 1.5, 2.0, -0.5, -1e-9, f64::INFINITY, f64::NEG_INFINITY, f64::MIN_POSITIVE, 1.0 - f64::EPSILON / 2.0]).prop_map(Thr::Float),
        ];
        let thr2 = thr.clone();
        let sig = n
            .prop_flat_map(move |n| {
                let p = prop_oneof![Just(0.05), Just(0.5), Just(0.95), Just(0.0)];
                (
                    0u8..8,
                    prop::collection::vec(any::<u8>(), n),
                    p.prop_flat_map(move |p| prop::collection::vec(prop::bool::weighted(p), n)),
                    thr.clone(),
                    0u8..4,
                )
            })
            .prop_map(|(ty, a, diff, thr, extra)| Case::Sig { ty, a, diff, thr, extra });
        let words = || prop::collection::vec(prop_oneof![gens::word(), gens::text(3)], 0..8);
        let sets = (0u8..2, words(), words(), words(), 0u8..3).prop_map(|(kind, common, a, b, dup)| Case::Sets { kind, common, a, b, dup });
        let nums = (prop::collection::vec(0u64..60, 0..60), prop::collection::vec(0u64..60, 0..60)).prop_map(|(a, b)| Case::Nums { a, b });
        let size = || prop_oneof![0u32..600, 0u32..20_000];
        let lsets = (any::<u64>(), size(), size(), prop_oneof![1u64..300, 1u64..30_000]).prop_map(|(seed, na, nb, span)| Case::LongSets { seed, na, nb, span });
        let lsig = (0u8..8, any::<u64>(), 600u32..6000, prop_oneof![0u32..4, 0u32..6000], thr2.clone()).prop_map(|(ty, seed, n, differ, thr)| Case::LongSig { ty, seed, n, differ, thr });
        prop_oneof![4000 => sig, 2000 => sets, 2000 => nums, 3 => lsets, 10 => lsig].boxed()
    }
    fn cases(t: Tier) -> u64 {
        if t == Tier::Quick { 1_600_000 } else { 32_000_000 }
    }
    fn large(t: Tier) -> Option<(BoxedStrategy<Case>, u64)> {
        let thr = prop_oneof![
            4 => (-2i8..=2).prop_map(Thr::Near),
            1 => any::<u16>().prop_map(Thr::Frac),
            1 => (0.0f64..=1.0).prop_map(Thr::Float),
        ];
        let n = prop_oneof![6000u32..40_000, 65_500u32..66_000, 66_000u32..200_000];
        let sig = (0u8..8, any::<u64>(), n, prop_oneof![0u32..4, 0u32..200_000], thr).prop_map(|(ty, seed, n, differ, thr)| Case::LongSig { ty, seed, n, differ, thr });
        let size = || prop_oneof![0u32..600, 20_000u32..200_000];
        let sets = (any::<u64>(), size(), size(), prop_oneof![1u64..30_000, 30_000u64..300_000]).prop_map(|(seed, na, nb, span)| Case::LongSets { seed, na, nb, span });
        Some((prop_oneof![2 => sig, 1 => sets].boxed(), if t == Tier::Quick { 160 } else { 2400 }))
    }
    fn check(c: &Case, ctx: &mut Ctx) -> Res {
        match c {
            Case::Sig { ty, a, diff, thr, extra } => match ty % 8 {
                0 => sigs::<u64>(a, diff, thr, *extra, ctx),
                1 => sigs::<u32>(a, diff, thr, *extra, ctx),
                2 => sigs::<u16>(a, diff, thr, *extra, ctx),
                3 => sigs::<u8>(a, diff, thr, *extra, ctx),
                4 => sigs::<i64>(a, diff, thr, *extra, ctx),
                5 => sigs::<i32>(a, diff, thr, *extra, ctx),
                6 => sigs::<i16>(a, diff, thr, *extra, ctx),
                _ => sigs::<i8>(a, diff, thr, *extra, ctx),
            },
            Case::Sets { kind, common, a, b, dup } => {
                let mut x: Vec<String> = common.iter().chain(a).cloned().collect();
                let mut y: Vec<String> = b.iter().chain(common).cloned().collect();
                for _ in 0..*dup {
                    x.extend(common.iter().cloned());
                    y.extend(b.iter().take(2).cloned());
                }
                if *kind == 0 {
                    jac(&x, &y, ctx)
                } else {
                    let (p, q): (Vec<&str>, Vec<&str>) = (x.iter().map(|s| s.as_str()).collect(), y.iter().map(|s| s.as_str()).collect());
                    jac(&p, &q, ctx)
                }
            }
            Case::Nums { a, b } => jac(a, b, ctx),
            Case::LongSets { seed, na, nb, span } => {
                ctx.label(if na.max(nb) > &65_536 { "collections of more than 65536 items" } else { "collections of up to 65536 items" });
                let mut r = Sm(*seed);
                let a: Vec<u64> = (0..*na).map(|_| r.below(*span)).collect();
                let b: Vec<u64> = (0..*nb).map(|_| r.below(*span)).collect();
                jac(&a, &b, ctx)
            }
            Case::LongSig { ty, seed, n, differ, thr } => {
                ctx.label(if *n > 65_536 { "signatures of more than 65536 values" } else { "signatures of up to 65536 values" });
                let mut r = Sm(*seed);
                let a: Vec<u8> = (0..*n).map(|_| r.next() as u8).collect();
                let diff: Vec<bool> = (0..*n).map(|_| r.below(*n as u64) < *differ as u64).collect();
                Self::check(&Case::Sig { ty: *ty, a, diff, thr: thr.clone(), extra: 0 }, ctx)
            }
        }
    }
}
fn main() {
    run_main::<P>()
}
