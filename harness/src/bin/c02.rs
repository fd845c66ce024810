//! MinHash similarity estimates Jaccard similarity: generated experiments, each a batch of
//! random role assignments (common / only left / only right) over a generated token universe.
use fnv::FnvBuildHasher;
use gaoya::minhash::*;
use gv::engine::*;
use gv::ensure;
use gv::rng::Sm;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::hash::{BuildHasher, BuildHasherDefault, Hasher};

#[derive(Serialize, Deserialize, Clone, Copy, Debug, PartialEq)]
enum Kind {
    /// fresh random 64 bit integers for every trial
    Random,
    /// fresh words over a small alphabet
    Words,
    /// consecutive integers, roles shuffled
    Sequential,
    /// single tokens whose hashes differ in one bit (32 and 64 bit signatures)
    OneBit,
    /// many positions: every one is a function of its own, under one seed and across two
    Functions,
    /// random token hashes, one of the tokens having the smallest or largest hash there is
    Special,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
struct Case {
    width: u8,
    hasher: u8,
    default_seed: bool,
    seed: u64,
    n: usize,
    common: usize,
    left: usize,
    right: usize,
    kind: Kind,
    salt: u64,
    trials: u32,
}
/// Allowance for the covariance of two positions of the affine family.
const LAG: f64 = 0.002;
struct P;

/// Allowance for accidental agreement of different minima, averaged over n positions: the
/// affine family loses low bits for even multipliers, so the rate has a heavy tail over seeds.
fn accident(c: &Case) -> f64 {
    let n = c.n as f64;
    match c.width {
        8 => 0.025 + 0.36 / n.sqrt() + 2.0 / n,
        16 => 0.001 + 0.03 / n.sqrt() + 2.0 / n,
        _ if c.default_seed => 0.0005,
        _ => 0.0005 + 0.5 / n,
    }
    .min(1.0)
}

/// The token is its own hash.
#[derive(Default, Clone, Copy)]
struct Pass(u64);
impl Hasher for Pass {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.0 = self.0.wrapping_mul(0x100000001b3) ^ *x as u64
        }
    }
    fn write_u64(&mut self, v: u64) {
        self.0 = v
    }
}

/// Tokens with different hashes are different tokens, whichever bit tells them apart. (Even
/// multipliers shift bit k of w out of the affine hash functions with probability 2^-(w-k).)
fn one_bit<M: MinHasher>(m: &M, c: &Case, ctx: &mut Ctx) -> Res {
    let mut r = Sm(c.salt);
    let (mut agree, mut low) = (0usize, 0usize);
    for _ in 0..c.trials {
        let h = r.next();
        let w = c.width as u64;
        let k = if r.below(2) == 0 { r.below(w - 13) } else { r.below(w) };
        let o = h ^ 1 << k;
        let (a, b) = (m.create_signature([h].iter()), m.create_signature([o].iter()));
        let s = compute_minhash_similarity(&a, &b);
        let q = 0.5f64.powi((w - k) as i32);
        let lim = q + 7.0 * (q * (1.0 - q) / c.n as f64).sqrt() + 0.05;
        ensure!(s < lim || c.n < 64, "disjoint sets {{{h:#x}}} and {{{o:#x}}} (hashes) have similarity {s}");
        if k < w - 13 {
            ensure!(s < 0.5 || c.n < 8, "disjoint sets {{{h:#x}}} and {{{o:#x}}} (hashes) have similarity {s}");
            agree += a.iter().zip(&b).filter(|(x, y)| x == y).count();
            low += 1;
        }
    }
    let rate = agree as f64 / (low * c.n).max(1) as f64;
    ctx.cmp();
    ensure!(rate < 0.02, "disjoint single token sets whose hashes differ in one bit agree at rate {rate:.4}");
    Ok(())
}

/// Values of every position for a row of single token sets.
fn columns<M: MinHasher>(m: &M, toks: &[u64], n: usize) -> Result<Vec<Vec<M::V>>, String>
where
    M::V: Copy,
{
    let mut v = vec![Vec::with_capacity(toks.len()); n];
    for t in toks {
        let s = m.create_signature([*t].iter());
        ensure!(s.len() == n, "signature of {} values for {n} hashes", s.len());
        for (i, x) in s.iter().enumerate() {
            v[i].push(*x);
        }
    }
    Ok(v)
}
fn functions<M: MinHasher>(m: &M, other: Option<&M>, c: &Case, ctx: &mut Ctx) -> Res
where
    M::V: Copy + Eq + std::hash::Hash,
{
    let mut r = Sm(c.salt);
    let toks: Vec<u64> = (0..60).map(|_| r.next()).collect();
    let mut seen = std::collections::HashMap::new();
    for (i, col) in columns(m, &toks, c.n)?.into_iter().enumerate() {
        if let Some(j) = seen.insert(col, i) {
            return Err(format!("positions {j} and {i} of {} are the same hash function", c.n));
        }
    }
    ctx.cmp();
    ctx.nontrivial();
    if let Some(o) = other {
        for (i, col) in columns(o, &toks, c.n)?.into_iter().enumerate() {
            if let Some(j) = seen.get(&col) {
                return Err(format!("position {i} is the same hash function as position {j} under another seed"));
            }
        }
    }
    Ok(())
}

fn tokens(kind: Kind, total: usize, r: &mut Sm) -> Vec<String> {
    let mut v: Vec<String> = match kind {
        Kind::Random => (0..total).map(|_| format!("{:x}", r.next())).collect(),
        Kind::Words => (0..total).map(|i| {
            let l = 3 + r.below(6);
            let mut w: String = (0..l).map(|_| (b'a' + r.below(26) as u8) as char).collect();
            w.push_str(&i.to_string());
            w
        }).collect(),
        Kind::OneBit | Kind::Functions | Kind::Special => vec![],
        Kind::Sequential => { let s = r.below(1 << 40); (0..total as u64).map(|i| (s + i).to_string()).collect() }
    };
    for i in (1..v.len()).rev() {
        v.swap(i, r.below(i as u64 + 1) as usize);
    }
    v
}

fn signatures<M: MinHasher, T: std::hash::Hash>(m: &M, other: Option<&M>, c: &Case, v: &[T]) -> (Vec<M::V>, Vec<M::V>, Option<Vec<M::V>>) {
    let a: Vec<&T> = v[..c.common + c.left].iter().collect();
    let b: Vec<&T> = v[..c.common].iter().chain(v[c.common + c.left..].iter()).collect();
    (m.create_signature(a.iter()), m.create_signature(b.iter()), other.map(|o| o.create_signature(a.iter())))
}

fn experiment<M: MinHasher>(m: &M, other: Option<&M>, c: &Case, ctx: &mut Ctx) -> Res
where
    M::V: Copy + Eq + std::hash::Hash,
{
    let total = c.common + c.left + c.right;
    let j = c.common as f64 / total as f64;
    let n = c.n as f64;
    let t = c.trials as f64;
    let mut r = Sm(c.salt);
    let (mut sum, mut sq) = (0.0, 0.0);
    let mut pos = vec![0u32; c.n];
    let mut seed_agree = 0u64;
    let lags = [1usize, 2, c.n / 2];
    let mut pairs = [0f64; 3];
    let (mut last, mut prev): (Vec<M::V>, Vec<M::V>) = (vec![], vec![]);
    for _ in 0..c.trials {
        let (sa, sb, so) = if c.kind == Kind::Special {
            let mut v: Vec<u64> = (0..total).map(|_| r.next()).collect();
            let at = r.below(total as u64) as usize;
            v[at] = [0, 1, u64::MAX, u32::MAX as u64][(c.seed >> 7) as usize % 4];
            signatures(m, other, c, &v)
        } else {
            signatures(m, other, c, &tokens(c.kind, total, &mut r))
        };
        let est = compute_minhash_similarity(&sa, &sb);
        let d = est - j;
        sum += d;
        sq += d * d;
        let eq: Vec<f64> = sa.iter().zip(&sb).map(|(x, y)| (x == y) as u8 as f64).collect();
        for i in 0..c.n {
            pos[i] += eq[i] as u32;
        }
        for (lag, sum) in lags.iter().zip(pairs.iter_mut()) {
            *sum += eq.iter().zip(&eq[*lag..]).map(|(x, y)| x * y).sum::<f64>();
        }
        if let Some(so) = so {
            seed_agree += sa.iter().zip(&so).filter(|(x, y)| x == y).count() as u64;
        }
        if c.left + c.right == 0 {
            ensure!(est == 1.0, "equal sets have similarity {est}");
        }
        prev = std::mem::replace(&mut last, sa);
    }
    ctx.cmp();
    if total > 50_000 {
        ctx.label("more than 50000 tokens");
    }
    let bias = accident(c) * (1.0 - j);
    let mean = sum / t;
    // spread of one estimate if positions were independent
    let var = j * (1.0 - j) / n + if c.width < 32 { bias / n } else { 0.0 };
    let emp_var = (sq / t - mean * mean).max(0.0);
    // disjoint sets: only accidental agreement, whose expected spread is known
    let sd = if j == 0.0 { (bias / n).sqrt() } else { emp_var.max(var).sqrt() };
    let tol = 6.5 * sd / t.sqrt() + if j == 0.0 { 5.0 } else { 3.0 } / (n * t) + 1e-9;
    if std::env::var("GV_CAL").is_ok() && j > 0.0 && j < 1.0 {
        println!("CAL {} {:?} n {} total {} j {:.3} meanz {:.2} rms {:.3}", c.width, c.kind, c.n, total, j, mean / (sd / t.sqrt()), (emp_var / var).sqrt());
    }
    ensure!(mean > -tol && mean < bias + tol, "mean estimate {:.4} for Jaccard {j:.4}: off by {mean:.5}, tolerance -{tol:.5}..{:.5}", j + mean, bias + tol);
    if c.trials >= 100 && c.kind != Kind::Sequential && n * j * (1.0 - j) >= 2.0 {
        let kurt = 1.0 / (n * j * (1.0 - j));
        let lim = 1.0 + 7.5 * ((2.0 + kurt) / t).sqrt();
        // a fixed token hash has a place of its own in every position's order, of whatever average
        let fixed = if c.kind == Kind::Special { 25.0 / (12.0 * n) } else { 0.0 };
        ensure!(emp_var <= var * lim + fixed, "estimates spread {:.4} around Jaccard {j:.4}, expected about {:.4}: positions are correlated", emp_var.sqrt(), var.sqrt());
        ctx.label("spread compared");
    }
    if c.trials >= 100 && c.kind != Kind::Sequential {
        // every single position behaves like a hash function of its own
        let w = 7.5 * (j * (1.0 - j) / t).sqrt() + 0.02;
        let hi = if c.default_seed && c.width >= 32 { j + w } else if c.default_seed && c.width == 16 { j + w + 0.05 } else { 2.0 };
        for (i, k) in pos.iter().enumerate() {
            let f = *k as f64 / t;
            ensure!(f >= j - w && f <= hi, "position {i} agrees at rate {f:.3} for Jaccard {j:.4}");
        }
    }
    if c.trials >= 100 && matches!(c.kind, Kind::Random | Kind::Words) && c.width >= 32 && j > 0.0 && j < 1.0 {
        // neighbouring positions, and those half a signature apart, agree independently
        for (lag, sum) in lags.iter().zip(&pairs) {
            let cnt = (c.n - lag) as f64;
            let expect: f64 = pos.iter().zip(&pos[*lag..]).map(|(x, y)| *x as f64 * *y as f64 / t).sum();
            let cov = (sum - expect) / (cnt * t);
            let se = j * (1.0 - j) / (cnt * t).sqrt();
            if std::env::var("GV_CAL").is_ok() {
                println!("LAG {} {:?} n {} total {} j {:.3} lag {lag} cov {cov:.5} z {:.2}", c.width, c.kind, c.n, total, j, cov / se);
            }
            let lim = 7.5 * se + 3.0 / (cnt * t) + LAG;
            ensure!(cov.abs() <= lim, "positions {lag} apart agree together: covariance {cov:.5}, tolerance {lim:.5}, Jaccard {j:.4}");
        }
        ctx.label("covariance compared");
    }
    // positions are different functions
    if c.width >= 32 && c.common + c.left > 0 {
        let d: std::collections::HashSet<_> = last.iter().zip(&prev).collect();
        ensure!(d.len() == c.n, "only {} of {} positions are different hash functions", d.len(), c.n);
    }
    if other.is_some() && c.width >= 32 && c.common + c.left > 0 {
        let rate = seed_agree as f64 / (n * t);
        ensure!(rate < 0.02, "signatures under different seeds agree at rate {rate:.4}");
        ctx.label("second seed compared");
    }
    if c.common > 0 && c.left + c.right > 0 {
        ctx.nontrivial();
    }
    Ok(())
}

macro_rules! go {
    ($m:ident, $bh:expr, $c:expr, $ctx:expr) => {{
        let c = $c;
        if c.default_seed {
            let m = $m::new_with_hasher(c.n, $bh);
            if c.kind == Kind::Functions { functions(&m, None, c, $ctx) } else { experiment(&m, None, c, $ctx) }
        } else {
            let m = $m::new_with_hasher_and_seed(c.n, $bh, c.seed);
            let other = match c.salt % 4 {
                0 => c.seed.wrapping_add(1 + c.salt % 1000),
                1 => c.seed ^ 1,
                2 => c.seed.swap_bytes() ^ (c.seed == c.seed.swap_bytes()) as u64,
                _ => c.seed ^ 1 << (c.salt >> 8) % 64,
            };
            let o = $m::new_with_hasher_and_seed(c.n, $bh, other);
            if c.kind == Kind::Functions { functions(&m, Some(&o), c, $ctx) } else { experiment(&m, Some(&o), c, $ctx) }
        }
    }};
}
fn by_width<B: BuildHasher + Clone>(bh: B, c: &Case, ctx: &mut Ctx) -> Res {
    match c.width {
        8 => go!(MinHasher8, bh.clone(), c, ctx),
        16 => go!(MinHasher16, bh.clone(), c, ctx),
        32 => go!(MinHasher32, bh.clone(), c, ctx),
        _ => go!(MinHasher64V1, bh.clone(), c, ctx),
    }
}

impl Property for P {
    type Case = Case;
    const ID: &'static str = "C02";
    const RULE: &'static str = "one case is an experiment of `trials` pairs of sets with the same overlap; non-trivial if the Jaccard similarity is strictly between 0 and 1";
    const ASSUMPTIONS: &'static [&'static str] = &[
        "statistical: mean within 6.5 standard errors (plus the accidental-match allowance of truncated hashes), variance of the estimate at most 7.5 standard errors above that of independent positions",
    ];
    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        let size = || prop_oneof![4 => 0usize..6, 4 => 0usize..40, 1 => 0usize..600];
        let kind = prop_oneof![3 => Just(Kind::Random), 2 => Just(Kind::Words), 1 => Just(Kind::Sequential), 1 => Just(Kind::OneBit), 1 => Just(Kind::Special)];
        (
            prop::sample::select(vec![8u8, 16, 32, 64]),
            0u8..3,
            prop::bool::weighted(0.3),
            any::<u64>(),
            prop_oneof![4 => prop::sample::select(vec![32usize, 64, 100, 128, 200]), 1 => 8usize..300],
            (size(), size(), size()).prop_map(|(c, l, r)| if c + l + r == 0 { (1, 0, 0) } else { (c, l, r) }),
            kind,
            any::<u64>(),
        )
            .prop_map(|(width, hasher, default_seed, seed, n, (common, left, right), kind, salt)| {
                if kind == Kind::OneBit {
                    return Case { width: if width <= 16 { 32 } else { width }, hasher, default_seed: false, seed, n, common: 0, left: 1, right: 1, kind, salt, trials: 300 };
                }
                let cost = (common * 2 + left + right) * n;
                Case { width, hasher, default_seed, seed, n, common, left, right, kind, salt, trials: (4_000_000 / cost.max(1)).clamp(150, 400) as u32 }
            })
            .boxed()
    }
    fn cases(t: Tier) -> u64 {
        if t == Tier::Quick { 12_000 } else { 200_000 }
    }
    fn large(t: Tier) -> Option<(BoxedStrategy<Case>, u64)> {
        let size = || prop_oneof![1 => Just(0usize), 2 => 1000usize..10_000, 3 => 30_000usize..80_000];
        let s = (prop::sample::select(vec![16u8, 32, 32, 64]), 0u8..3, any::<bool>(), any::<u64>(), 64usize..129, (size(), 30_000usize..80_000, size()), any::<u64>())
            .prop_map(|(width, hasher, default_seed, seed, n, (common, left, right), salt)| Case { width, hasher, default_seed, seed, n, common, left, right, kind: Kind::Random, salt, trials: 8 });
        let f = (prop::sample::select(vec![8u8, 16, 32, 64]), 0u8..3, prop::bool::weighted(0.2), any::<u64>(), prop_oneof![2 => 300usize..3000, 1 => 3000usize..20_000], any::<u64>())
            .prop_map(|(width, hasher, default_seed, seed, n, salt)| Case { width, hasher, default_seed, seed, n, common: 0, left: 1, right: 1, kind: Kind::Functions, salt, trials: 60 });
        Some((prop_oneof![1 => s, 3 => f].boxed(), if t == Tier::Quick { 384 } else { 8000 }))
    }
    fn check(c: &Case, ctx: &mut Ctx) -> Res {
        ctx.label(format!("{} bit", c.width));
        ctx.label(format!("{:?}", c.kind));
        if c.kind == Kind::OneBit {
            let bh = BuildHasherDefault::<Pass>::default();
            return if c.width == 32 {
                one_bit(&MinHasher32::new_with_hasher_and_seed(c.n, bh, c.seed), c, ctx)
            } else {
                one_bit(&MinHasher64V1::new_with_hasher_and_seed(c.n, bh, c.seed), c, ctx)
            };
        }
        if c.kind == Kind::Special {
            return by_width(BuildHasherDefault::<Pass>::default(), c, ctx);
        }
        match c.hasher {
            0 => by_width(FnvBuildHasher::default(), c, ctx),
            1 => by_width(SipHasher24BuildHasher::default(), c, ctx),
            _ => by_width(BuildHasherDefault::<Sha1Hasher>::default(), c, ctx),
        }
    }
}
fn main() {
    run_main::<P>()
}
