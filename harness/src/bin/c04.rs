use gaoya::minhash::*;
use gv::engine::*;
use gv::ensure;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Case {
    s: f64,
    n: usize,
    /// None: the default probability
    p: Option<f64>,
}
struct P;

fn proba(s: f64, b: usize, r: usize) -> f64 {
    // 1 - (1 - s^r)^b, evaluated without cancellation
    let x = s.powf(r as f64);
    if x >= 1.0 {
        return if b > 0 { 1.0 } else { 0.0 };
    }
    -f64::exp_m1(b as f64 * f64::ln_1p(-x))
}
const EPS: f64 = 1e-9;

/// The same, when s is a multiple of 1/8 and the result and every intermediate value fit into a double
/// exactly, so that any way of evaluating the products gives this value
fn exact_proba(s: f64, b: usize, r: usize) -> Option<f64> {
    let k = s * 8.0;
    if k.fract() != 0.0 || r == 0 || b == 0 || 3 * r * b > 50 {
        return None;
    }
    let x = (k as u64).pow(r as u32); // s^r = x / 8^r
    let d = 1u64 << (3 * r);
    let y = (d - x).pow(b as u32); // (1 - s^r)^b = y / 8^(r b)
    let e = 1u64 << (3 * r * b);
    Some((e - y) as f64 / e as f64)
}

impl Property for P {
    type Case = Case;
    const ID: &'static str = "C04";
    const RULE: &'static str = "(similarity, budget, probability); non-trivial if the computed rows are at least 2";
    const ASSUMPTIONS: &'static [&'static str] = &["probabilities within 1e-9 of the requested one may be decided either way (rounding), unless they are exactly representable"];
    fn strategy(t: Tier) -> BoxedStrategy<Case> {
        let s = prop_oneof![
            6 => (1u32..=1000).prop_map(|x| x as f64 / 1000.0),
            3 => (1u32..=20).prop_map(|x| x as f64 / 20.0),
            2 => 0.0001f64..=1.0,
            1 => (1u32..=500).prop_map(|x| 1.0 - x as f64 * 1e-5),
            1 => Just(1.0f64),
            1 => (1u32..40).prop_map(|x| x as f64 * 1e-4),
            1 => prop::sample::select(vec![1e-300, 1e-30, 1e-12, 1e-9, 1e-6, 1.0 - 1e-6, 1.0 - 1e-9, 1.0 - 1e-12, 1.0 - f64::EPSILON]),
        ];
        let big = if t == Tier::Quick { 3000usize } else { 20000 };
        let n = prop_oneof![4 => 1usize..30, 4 => 1usize..300, 2 => 1usize..big, 1 => (0u32..100, 1usize..100_000).prop_map(|(k, n)| if k == 0 { n } else { n % 4000 + 1 }), 1 => prop::sample::select(vec![1usize, 2, 3, 64, 100, 128, 196, 200, 256, 512, 1000])];
        let p = prop_oneof![
            3 => Just(None),
            3 => (1u32..100).prop_map(|x| Some(x as f64 / 100.0)),
            2 => (1u32..1000).prop_map(|x| Some(1.0 - x as f64 * 1e-4)),
            1 => (1u32..1000).prop_map(|x| Some(x as f64 * 1e-4)),
            1 => (0.0001f64..0.9999).prop_map(Some),
            1 => (1u32..1000).prop_map(|x| Some(1.0 - x as f64 * 1e-7)),
        ];
        let plain = (s.clone(), n.clone(), p).prop_map(|(s, n, p)| Case { s, n, p });
        let delta = || (prop::sample::select(vec![1e-8, 1e-7, 1e-6, 1e-5, 1e-4, 1e-3]), -1.0f64..=1.0).prop_map(|(d, x)| d * x);
        // the requested probability right beside the one that k rows give
        let near_p = (s, n.clone(), any::<prop::sample::Index>(), delta()).prop_map(|(s, n, k, d)| {
            let k = 2 + k.index(40.min(n));
            let p = proba(s, n / k, k) + d;
            Case { s, n, p: if p > 0.0 && p < 1.0 { Some(p) } else { None } }
        });
        // the similarity right beside the one at which k rows give 0.99
        let near_s = (n, any::<prop::sample::Index>(), delta(), any::<bool>()).prop_map(|(n, k, d, explicit)| {
            let k = 2 + k.index(40.min(n));
            let b = (n / k).max(1) as f64;
            let s = (-f64::exp_m1((0.01f64).ln() / b)).powf(1.0 / k as f64) + d;
            Case { s: s.clamp(1e-6, 1.0), n, p: if explicit { Some(0.99) } else { None } }
        });
        // the requested probability exactly the one of k rows, everything representable
        let exact = (prop::sample::select(vec![0.5f64, 0.25, 0.75, 0.125, 0.375, 0.625, 0.875]), 2usize..5, 1usize..8, 0usize..5).prop_map(|(s, r, b, extra)| {
            let n = r * b + extra % r;
            Case { s, n, p: Some(exact_proba(s, b, r).unwrap_or(0.99)) }
        });
        prop_oneof![12 => plain, 3 => near_p, 3 => near_s, 1 => exact].boxed()
    }
    fn cases(t: Tier) -> u64 {
        if t == Tier::Quick { 6_000_000 } else { 120_000_000 }
    }
    fn check(c: &Case, ctx: &mut Ctx) -> Res {
        let (s, n) = (c.s, c.n);
        let p = c.p.unwrap_or(0.99);
        let (b, r) = match c.p {
            None => calculate_minhash_params(s, n),
            Some(p) => calculate_minhash_params_with_proba(s, n, p),
        };
        ctx.cmp();
        ensure!(b >= 1 && r >= 1, "({b}, {r}) for similarity {s}, {n} hashes, p {p}");
        ensure!(b * r <= n, "{b} x {r} needs more than {n} hashes");
        ensure!(b == n / r, "{b} bands of {r} rows leave a whole band of {n} hashes unused");
        if r > 1 {
            ctx.nontrivial();
            for k in 2..=r {
                let q = proba(s, n / k, k);
                if let Some(q) = exact_proba(s, n / k, k) {
                    ctx.label("exact value");
                    ensure!(q > p, "({b}, {r}): {k} rows give exactly the probability {q}, more than {p} was requested (similarity {s}, {n} hashes)");
                }
                ensure!(q > p - EPS, "({b}, {r}): {k} rows give probability {q}, requested {p} (similarity {s}, {n} hashes)");
            }
        }
        if b > 1 {
            let q = proba(s, n / (r + 1), r + 1);
            if let Some(q) = exact_proba(s, n / (r + 1), r + 1) {
                ctx.label("exact value");
                ensure!(q <= p, "({b}, {r}): {} rows would give exactly the probability {q} > {p} (similarity {s}, {n} hashes)", r + 1);
            }
            ensure!(q <= p + EPS, "({b}, {r}): {} rows would still give probability {q} > {p} (similarity {s}, {n} hashes)", r + 1);
            ctx.label("stopped by the probability");
        } else {
            ctx.label("single band");
        }
        if n >= 64 && r > 1 && r < 20 && b > 1 {
            ctx.label("typical layout");
        }
        if c.p.is_none() {
            let e = calculate_minhash_params_with_proba(s, n, 0.99);
            ensure!(e == (b, r), "default parameters {:?} differ from probability 0.99 {e:?}", (b, r));
        }
        Ok(())
    }
}
fn main() {
    run_main::<P>()
}
