//! End to end: computed banding parameters + signatures + index find near-duplicates at the
//! promised rate and do not return clearly dissimilar documents.
use gaoya::minhash::*;
use gv::engine::*;
use gv::ensure;
use gv::rng::Sm;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::hash::BuildHasherDefault;

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Case {
    width: u8,
    container: u8,
    /// 0: new(), 1: keyless SipHash with a seed, 2: SHA-1 with a seed
    hasher: u8,
    seed: u64,
    thr: f64,
    budget: usize,
    common: usize,
    left: usize,
    right: usize,
    bulk: bool,
    trials: u32,
    salt: u64,
}
struct P;

fn accident(c: &Case, n: f64) -> f64 {
    match c.width {
        8 => (0.025 + 0.36 / n.sqrt() + 2.0 / n).min(0.3),
        16 => (0.001 + 0.03 / n.sqrt() + 2.0 / n).min(0.1),
        _ => 0.0005 + if c.hasher == 0 { 0.0 } else { 1.0 / n },
    }
}

/// P(Binomial(n, p) >= k)
fn tail(n: usize, p: f64, k: usize) -> f64 {
    if k == 0 || p >= 1.0 {
        return 1.0;
    }
    if k > n || p <= 0.0 {
        return 0.0;
    }
    let (lp, lq) = (p.ln(), (1.0 - p).ln());
    let mut ln_choose = 0.0;
    let mut sum = 0.0;
    for i in 0..=n {
        if i > 0 {
            ln_choose += ((n - i + 1) as f64 / i as f64).ln();
        }
        if i >= k {
            sum += (ln_choose + i as f64 * lp + (n - i) as f64 * lq).exp();
        }
    }
    sum.min(1.0)
}

fn experiment<M: MinHasher, C: IdContainer<u32>>(m: &M, b: usize, r: usize, c: &Case, ctx: &mut Ctx) -> Res
where
    M::V: MinHashType + Send + Sync,
    M: Sync + Send,
{
    let n = (b * r) as f64;
    let total = c.common + c.left + c.right;
    let s = c.common as f64 / total as f64;
    let t = c.trials as f64;
    let mut ix = MinHashIndex::<M::V, u32, C>::new_index(b, r, c.thr);
    let mut all = MinHashIndex::<M::V, u32, C>::new_index(b, r, 0.0);
    let mut rng = Sm(c.salt);
    let mut queries = vec![];
    let mut pairs = vec![];
    for i in 0..c.trials {
        let v: Vec<String> = (0..total).map(|_| format!("{:x}", rng.next())).collect();
        let a = m.create_signature(v[..c.common + c.left].iter());
        let q = m.create_signature(v[..c.common].iter().chain(v[c.common + c.left..].iter()));
        pairs.push((i, a));
        queries.push(q);
    }
    if c.bulk {
        ix.par_bulk_insert_pairs(pairs.clone());
        let (ids, sigs) = pairs.into_iter().unzip();
        all.par_bulk_insert(ids, sigs);
    } else {
        for (i, a) in pairs {
            ix.insert(i, a.clone());
            all.insert(i, a);
        }
    }
    // the promise holds for every way of asking
    const FORMS: [&str; 5] = ["query", "query_owned", "query_owned_return_similarity", "par_bulk_query", "query_top_k"];
    let mut hits = [0u32; 5];
    let mut foreigns = [0u32; 5];
    let mut cand = 0u32;
    let bulk = ix.par_bulk_query(&queries);
    for (i, q) in queries.iter().enumerate() {
        let i = i as u32;
        let answers: [Vec<u32>; 5] = [
            ix.query(q).into_iter().copied().collect(),
            ix.query_owned(q).into_iter().collect(),
            ix.query_owned_return_similarity(q).into_iter().map(|x| x.0).collect(),
            bulk[i as usize].iter().copied().collect(),
            ix.query_top_k(q, 5).into_iter().filter(|x| 1.0 - x.1 >= c.thr).map(|x| x.0).collect(),
        ];
        for (k, f) in answers.iter().enumerate() {
            hits[k] += f.contains(&i) as u32;
            foreigns[k] += f.iter().filter(|x| **x != i).count() as u32;
        }
        cand += all.query(q).contains(&i) as u32;
    }
    ctx.cmp();
    let cand = cand as f64 / t;
    let acc = accident(c, n);
    let s_eff = s + (1.0 - s) * acc;
    let curve = |x: f64| 1.0 - (1.0 - x.powi(r as i32)).powi(b as i32);
    let slack = |p: f64| 6.5 * (p * (1.0 - p) / t).sqrt() + 5.0 / t;
    let (lo, hi) = (curve(s), curve(s_eff));
    let hi_v = if lo < 0.5 && hi > 0.5 { 0.5 } else { hi };
    if std::env::var("GV_CAL").is_ok() && lo > 0.05 && lo < 0.95 {
        println!("CAL {} b {b} r {r} s {s:.3} p {lo:.3} z {:.2}", c.width, (cand - lo) / (lo * (1.0 - lo) / t).sqrt());
    }
    ensure!(cand >= lo - slack(lo), "candidates at rate {cand:.3}, S-curve gives {lo:.3} (s {s:.3}, {b} bands of {r})");
    // Two tokens whose hashes agree in the low bits agree at many truncated positions at once:
    // for very small sets of 8 bit hashes accidental agreement is not spread over the positions.
    let small = c.common + c.left.min(c.right) < 12;
    let upper = c.width > 8 || !small;
    ensure!(
        !upper || cand <= hi + slack(hi_v),
        "candidates at rate {cand:.3}, S-curve gives {lo:.3}..{hi:.3} (s {s:.3}, {b} bands of {r})"
    );
    // around the threshold the answer is decided by the signature's statistical error: the number of agreeing
    // positions is binomial. The margins cover the small bias of the hash family.
    let need = (0..=b * r).find(|k| *k as f64 / n >= c.thr).unwrap_or(b * r + 1);
    let most = tail(b * r, s_eff + 0.012, need);
    let least = tail(b * r, s - 0.012, need) - (1.0 - lo);
    let margin = |p: f64| 6.5 * (p * (1.0 - p)).max(1.0 / t).sqrt() / t.sqrt() + 0.015;
    let precise = c.width >= 32 && c.common + c.left.min(c.right) >= 12;
    if std::env::var("GV_CAL").is_ok() && precise {
        let h = hits[1] as f64 / t;
        println!("CAL2 {} {} s {s:.3} thr {:.3} n {n} hit {h:.3} in {least:.3}..{most:.3} z {:.2} {:.2}", c.width, c.hasher, c.thr, (h - tail(b * r, s, need)) / (most * (1.0 - most) / t).sqrt().max(1.0 / t), (h - most) / margin(most));
    }
    for (form, (hit, foreign)) in FORMS.iter().zip(hits.iter().zip(&foreigns)) {
        let hit = *hit as f64 / t;
        let sigma = (s * (1.0 - s) / n).sqrt();
        if s >= c.thr + 5.5 * sigma {
            ensure!(
                hit >= lo - slack(lo),
                "{form}: documents at similarity {s:.3} above the threshold {} found at rate {hit:.3}, expected {lo:.3}",
                c.thr
            );
            if r > 1 {
                ensure!(
                    hit >= 0.99 - slack(0.99),
                    "{form}: documents at similarity {s:.3} above the threshold {} found at rate {hit:.3}, promised 0.99",
                    c.thr
                );
                ctx.label("recall above the threshold");
            }
            ctx.nontrivial();
        }
        if precise {
            ensure!(
                hit <= most + margin(most),
                "{form}: documents at similarity {s:.3} found at rate {hit:.3} with threshold {}, the estimate's error explains at most {most:.3}",
                c.thr
            );
            ensure!(
                hit >= least - margin(least.clamp(0.0, 1.0)),
                "{form}: documents at similarity {s:.3} found at rate {hit:.3} with threshold {}, the estimate's error explains at least {least:.3}",
                c.thr
            );
            if most > 0.02 && least < 0.98 {
                ctx.label("around the threshold");
            }
        }
        // the number of accidental agreements also fluctuates
        let sigma_eff = ((s_eff * (1.0 - s_eff)).max(1.0 / n) / n).sqrt();
        if upper && s_eff + 6.5 * sigma_eff + 2.0 / n < c.thr {
            ensure!(hit <= 5.0 / t, "{form}: documents at similarity {s:.3} below the threshold {} found at rate {hit:.3}", c.thr);
            ctx.label("precision below the threshold");
            ctx.nontrivial();
        }
        let acc_sd = (acc.max(1.0 / n) / n).sqrt();
        if upper && acc + 7.5 * acc_sd + 4.0 / n < c.thr {
            let pairs = t * (t - 1.0);
            let allowed = match c.width {
                8 => 4.0 + pairs * 1e-5,
                16 if small => 20.0 + pairs * 2e-4,
                _ => 4.0,
            };
            ensure!(*foreign as f64 <= allowed, "{form}: {foreign} unrelated documents returned at threshold {}", c.thr);
            ctx.label("unrelated documents");
        }
    }
    Ok(())
}

fn by_container<M: MinHasher + Sync + Send>(m: &M, b: usize, r: usize, c: &Case, ctx: &mut Ctx) -> Res
where
    M::V: MinHashType + Send + Sync,
{
    match c.container {
        0 => experiment::<M, HashSetContainer<u32>>(m, b, r, c, ctx),
        1 => experiment::<M, VecContainer<u32>>(m, b, r, c, ctx),
        _ => experiment::<M, SmallVecContainer<u32, 2>>(m, b, r, c, ctx),
    }
}
macro_rules! go {
    ($m:ident, $b:expr, $r:expr, $c:expr, $ctx:expr) => {{
        let n = $b * $r;
        match $c.hasher {
            0 => by_container(&$m::new(n), $b, $r, $c, $ctx),
            1 => by_container(&$m::new_with_hasher_and_seed(n, SipHasher24BuildHasher::default(), $c.seed), $b, $r, $c, $ctx),
            _ => by_container(&$m::new_with_hasher_and_seed(n, BuildHasherDefault::<Sha1Hasher>::default(), $c.seed), $b, $r, $c, $ctx),
        }
    }};
}

impl Property for P {
    type Case = Case;
    const ID: &'static str = "C23";
    const RULE: &'static str =
        "one case is an index of `trials` documents queried with variants at a fixed Jaccard similarity; non-trivial if that similarity is clearly above or clearly below the threshold";
    const ASSUMPTIONS: &'static [&'static str] = &["statistical: rates within 6.5 standard errors (plus 5 events) of the S-curve; truncated hashes may agree accidentally at a bounded rate"];
    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        let sizes = (prop_oneof![1 => 0usize..4, 4 => 0usize..40], 0usize..16, 0usize..16).prop_map(|(c, l, r)| {
            if c + l + r == 0 {
                (1, 0, 0)
            } else if c + r == 0 {
                (c, l, 1)
            } else if c + l == 0 {
                (c, 1, r)
            } else {
                (c, l, r)
            }
        });
        (
            (
                prop::sample::select(vec![8u8, 16, 32, 64]),
                0u8..3,
                prop_oneof![3 => Just(0u8), 1 => Just(1u8), 1 => Just(2u8)],
                any::<u64>(),
            ),
            prop_oneof![2 => 0.3f64..0.95, 1 => prop::sample::select(vec![0.5, 0.75, 0.8, 0.9])],
            prop_oneof![3 => 64usize..260, 1 => prop::sample::select(vec![100usize, 128, 200, 256])],
            sizes,
            any::<bool>(),
            any::<u64>(),
            // the threshold some standard errors beside the similarity
            prop_oneof![2 => Just(None), 1 => (-3.5f64..3.5).prop_map(Some)],
        )
            .prop_map(|((width, container, hasher, seed), thr, budget, (common, left, right), bulk, salt, beside)| {
                let s = common as f64 / (common + left + right) as f64;
                let thr = match beside {
                    Some(z) if s > 0.3 && s < 0.97 => (s + z * (s * (1.0 - s) / budget as f64).sqrt()).clamp(0.3, 0.95),
                    _ => thr,
                };
                Case { width, container, hasher, seed, thr, budget, common, left, right, bulk, trials: 600, salt }
            })
            .boxed()
    }
    fn cases(t: Tier) -> u64 {
        if t == Tier::Quick {
            6_000
        } else {
            80_000
        }
    }
    fn check(c: &Case, ctx: &mut Ctx) -> Res {
        let (b, r) = calculate_minhash_params(c.thr, c.budget);
        ctx.label(format!("{} bit", c.width));
        match c.width {
            8 => go!(MinHasher8, b, r, c, ctx),
            16 => go!(MinHasher16, b, r, c, ctx),
            32 => go!(MinHasher32, b, r, c, ctx),
            _ => go!(MinHasher64V1, b, r, c, ctx),
        }
    }
}
fn main() {
    run_main::<P>()
}
