//! SimHash distance estimates the angle between token-count vectors: generated experiments
//! against the exact flip probability of a random-sign projection of the two vectors.
use gaoya::simhash::*;
use gv::engine::*;
use gv::ensure;
use gv::rng::Sm;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::HashMap;
use std::f64::consts::PI;

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Case {
    wide: bool,
    k1: u64,
    k2: u64,
    /// occurrences of each distinct token in the two documents
    counts: Vec<(u8, u8)>,
    salt: u64,
    trials: u32,
    /// long documents: (number of distinct tokens, occurrences of each in the two documents), in this order
    #[serde(default)]
    long: Vec<(u16, u8, u8)>,
}
struct P;

/// Long documents: by the central limit theorem a bit differs with the probability angle / pi, up to the
/// share of ties, which is of the order of 1/sqrt(number of tokens).
fn long_experiment<S: SimHashBits>(c: &Case, ctx: &mut Ctx, sign: impl Fn(&[u64]) -> S) -> Res {
    let l = S::bit_length() as f64;
    let (mut aa, mut bb, mut ab) = (0.0, 0.0, 0.0);
    for (n, x, y) in &c.long {
        let (n, x, y) = (*n as f64, *x as f64, *y as f64);
        aa += n * x * x;
        bb += n * y * y;
        ab += n * x * y;
    }
    let da: usize = c.long.iter().filter(|b| b.1 > 0).map(|b| b.0 as usize).sum();
    let db: usize = c.long.iter().filter(|b| b.2 > 0).map(|b| b.0 as usize).sum();
    if da.min(db) < 300 {
        return Ok(());
    }
    let pd = (ab / f64::sqrt(aa * bb)).clamp(-1.0, 1.0).acos() / PI;
    let mut r = Sm(c.salt);
    let mut sum = 0.0;
    for _ in 0..c.trials {
        let (mut a, mut b) = (vec![], vec![]);
        for (n, x, y) in &c.long {
            for _ in 0..*n {
                let tok = r.next();
                a.extend(std::iter::repeat(tok).take(*x as usize));
                b.extend(std::iter::repeat(tok).take(*y as usize));
            }
        }
        let d = sign(&a).hamming_distance(&sign(&b));
        if c.long.iter().all(|b| b.1 == b.2) {
            ensure!(d == 0, "identical long documents are at distance {d}");
        }
        sum += d as f64;
    }
    ctx.cmp();
    if ab > 0.0 && pd > 0.0 {
        ctx.nontrivial();
    }
    ctx.label(if da.min(db) > 4000 { "document of more than 4000 distinct tokens" } else { "long document" });
    let mean = sum / (l * c.trials as f64);
    let tol = 6.5 * (pd * (1.0 - pd) / (l * c.trials as f64)).sqrt() + 1.0 / (da.min(db) as f64).sqrt() + 0.005;
    ensure!((mean - pd).abs() <= tol, "{mean:.4} of the bits of long documents differ on average, expected {pd:.4} +- {tol:.4} (angle over pi), blocks {:?}", c.long);
    Ok(())
}

/// Exact probabilities over random signs: (sign bits of the two sums differ, bit of a is set).
fn exact(counts: &[(u8, u8)]) -> (f64, f64) {
    let mut d: HashMap<(i32, i32), f64> = HashMap::new();
    d.insert((0, 0), 1.0);
    for (x, y) in counts {
        let (x, y) = (*x as i32, *y as i32);
        let mut e = HashMap::with_capacity(d.len() * 2);
        for ((a, b), p) in d {
            *e.entry((a + x, b + y)).or_insert(0.0) += p / 2.0;
            *e.entry((a - x, b - y)).or_insert(0.0) += p / 2.0;
        }
        d = e;
    }
    let mut diff = 0.0;
    let mut set = 0.0;
    for ((a, b), p) in d {
        if (a > 0) != (b > 0) {
            diff += p;
        }
        if a > 0 {
            set += p;
        }
    }
    (diff, set)
}

fn angle(counts: &[(u8, u8)]) -> Option<f64> {
    let (mut aa, mut bb, mut ab) = (0.0, 0.0, 0.0);
    for (x, y) in counts {
        let (x, y) = (*x as f64, *y as f64);
        aa += x * x;
        bb += y * y;
        ab += x * y;
    }
    if aa == 0.0 || bb == 0.0 {
        None
    } else {
        Some((ab / (aa * bb).sqrt()).clamp(-1.0, 1.0).acos())
    }
}

fn experiment<S: SimHashBits>(c: &Case, ctx: &mut Ctx, sign: impl Fn(&[u64]) -> S, sign2: impl Fn(&[u64]) -> S) -> Res {
    let l = S::bit_length();
    let (pd, ps) = exact(&c.counts);
    let t = c.trials as f64;
    let mut r = Sm(c.salt);
    let mut bits = vec![0u32; l];
    let (mut sum, mut sq, mut keys, mut ang) = (0.0, 0.0, 0.0, 0.0);
    for _ in 0..c.trials {
        let (mut a, mut b) = (vec![], vec![]);
        for (x, y) in &c.counts {
            let tok = r.next();
            a.extend(std::iter::repeat(tok).take(*x as usize));
            b.extend(std::iter::repeat(tok).take(*y as usize));
        }
        let (sa, sb, so) = (sign(&a), sign(&b), sign2(&a));
        let d = sa.hamming_distance(&sb);
        if c.counts.iter().all(|(x, y)| x == y) {
            ensure!(d == 0, "identical documents are at distance {d}");
        }
        for (i, k) in bits.iter_mut().enumerate() {
            *k += ((sa ^ sb) >> i & S::one() == S::one()) as u32;
        }
        sum += d as f64;
        sq += (d * d) as f64;
        ang += sa.hamming_angle(&sb);
        keys += sa.hamming_distance(&so) as f64;
    }
    ctx.cmp();
    let lf = l as f64;
    let mean = sum / (t * lf);
    let v = pd * (1.0 - pd);
    let tol = 6.5 * (v / (lf * t)).sqrt() + 4.0 / (lf * t) + 1e-9;
    if std::env::var("GV_CAL").is_ok() {
        println!("CAL {} p {pd:.4} theta/pi {:.4} z {:.2} var {:.3}", l, angle(&c.counts).unwrap_or(0.0) / PI, (mean - pd) / ((v / (lf * t)).sqrt() + 1e-12), (sq / t - (sum / t).powi(2)) / (lf * v + 1e-12));
    }
    ensure!((mean - pd).abs() <= tol, "{:.4} of the bits differ on average, expected {pd:.4} +- {tol:.4} for counts {:?}", mean, c.counts);
    ensure!((ang / t - mean * PI).abs() < 1e-6, "Hamming angle {} is not the share of differing bits {mean} times pi", ang / t);
    for (i, k) in bits.iter().enumerate() {
        let f = *k as f64 / t;
        let tol = 7.5 * (v / t).sqrt() + 6.0 / t;
        ensure!((f - pd).abs() <= tol, "bit {i} differs at rate {f:.3}, expected {pd:.4} +- {tol:.4}");
    }
    if lf * v >= 2.0 {
        let kurt = 1.0 / (lf * v);
        let var = sq / t - (sum / t).powi(2);
        let w = 7.5 * ((2.0 + kurt) / t).sqrt();
        ensure!(var <= lf * v * (1.0 + w) && var >= lf * v * (1.0 - w), "variance of the distance {var:.2}, expected {:.2}: bits are not independent", lf * v);
        ctx.label("bit independence compared");
    }
    // another key gives an unrelated signature
    let q = 2.0 * ps * (1.0 - ps);
    let f = keys / (t * lf);
    let tol = 6.5 * (q * (1.0 - q) / (lf * t)).sqrt() + 4.0 / (lf * t);
    ensure!((f - q).abs() <= tol, "signatures of a document under different keys differ in {f:.4} of the bits, expected {q:.4}");
    if let Some(th) = angle(&c.counts) {
        let da: usize = c.counts.iter().filter(|x| x.0 > 0).count();
        let db: usize = c.counts.iter().filter(|x| x.1 > 0).count();
        let flat = c.counts.iter().all(|x| x.0 <= 2 && x.1 <= 2);
        if da.min(db) >= 25 && flat {
            ensure!((mean - th / PI).abs() < 0.07 + tol, "share of differing bits {mean:.4}, angle over pi {:.4}", th / PI);
            ctx.label("compared with the true angle");
        }
        if th > 1e-6 && c.counts.iter().any(|x| x.0 > 0 && x.1 > 0) {
            ctx.nontrivial();
        }
    }
    Ok(())
}

impl Property for P {
    type Case = Case;
    const ID: &'static str = "C13";
    const RULE: &'static str = "one case is an experiment of `trials` document pairs with the same token-count vectors; non-trivial if the documents differ and share a token";
    const ASSUMPTIONS: &'static [&'static str] = &["statistical: means within 6.5 standard errors, single bits and variances within 7.5"];
    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        let w = || prop_oneof![3 => Just(0u8), 5 => Just(1u8), 2 => 2u8..5, 1 => 5u8..20];
        let counts = prop_oneof![
            2 => prop::collection::vec((w(), w()), 0..12),
            1 => (0usize..40, 0usize..40, 0usize..40).prop_map(|(c, a, b)| {
                let mut v = vec![(1u8, 1u8); c];
                v.extend(vec![(1, 0); a]);
                v.extend(vec![(0, 1); b]);
                v
            }),
            1 => prop::collection::vec((0u8..3, 0u8..3), 0..70),
        ];
        (any::<bool>(), any::<u64>(), any::<u64>(), counts, any::<u64>())
            .prop_map(|(wide, k1, k2, counts, salt)| {
                let total: usize = counts.iter().map(|c| c.0 as usize * 2 + c.1 as usize).sum();
                let trials = (60_000 / total.max(1)).clamp(250, 1500) as u32;
                Case { wide, k1, k2, counts, salt, trials, long: vec![] }
            })
            .boxed()
    }
    fn cases(t: Tier) -> u64 {
        if t == Tier::Quick { 12_000 } else { 200_000 }
    }
    fn large(t: Tier) -> Option<(BoxedStrategy<Case>, u64)> {
        let size = prop_oneof![2 => 100u16..1500, 2 => 1000u16..6000, 1 => 5000u16..30000];
        let shape = prop_oneof![3 => Just((1u8, 1u8)), 3 => Just((1u8, 0u8)), 3 => Just((0u8, 1u8)), 1 => (0u8..4, 0u8..4)];
        let s = (any::<bool>(), any::<u64>(), any::<u64>(), prop::collection::vec((size, shape), 1..5), any::<u64>())
            .prop_map(|(wide, k1, k2, b, salt)| {
                let long: Vec<(u16, u8, u8)> = b.into_iter().map(|(n, (x, y))| (n, x, y)).collect();
                let total: usize = long.iter().map(|b| b.0 as usize * (b.1 + b.2) as usize).sum();
                Case { wide, k1, k2, counts: vec![], salt, trials: (400_000 / total.max(1)).clamp(8, 40) as u32, long }
            });
        Some((s.boxed(), if t == Tier::Quick { 400 } else { 10_000 }))
    }
    fn check(c: &Case, ctx: &mut Ctx) -> Res {
        let (j1, j2) = if c.salt & 1 == 1 { (c.k1, c.k2.wrapping_add(1 + c.salt % 97)) } else { (c.k1.wrapping_add(1 + c.salt % 97), c.k2) };
        if c.wide {
            ctx.label("128 bit");
            let m = SimHash::<SimSipHasher128, u128, 128>::new(SimSipHasher128::new(c.k1, c.k2));
            let o = SimHash::<SimSipHasher128, u128, 128>::new(SimSipHasher128::new(j1, j2));
            if !c.long.is_empty() {
                return long_experiment(c, ctx, |t| m.create_signature(t.iter()));
            }
            experiment(c, ctx, |t| m.create_signature(t.iter()), |t| o.create_signature(t.iter()))
        } else {
            ctx.label("64 bit");
            let m = SimHash::<SimSipHasher64, u64, 64>::new(SimSipHasher64::new(c.k1, c.k2));
            let o = SimHash::<SimSipHasher64, u64, 64>::new(SimSipHasher64::new(j1, j2));
            if !c.long.is_empty() {
                return long_experiment(c, ctx, |t| m.create_signature(t.iter()));
            }
            experiment(c, ctx, |t| m.create_signature(t.iter()), |t| o.create_signature(t.iter()))
        }
    }
}
fn main() {
    run_main::<P>()
}
