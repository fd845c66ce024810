use gaoya::simhash::*;
use gv::engine::*;
use gv::ensure;
use gv::gens;
use gv::rng::Sm;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use siphasher::sip::SipHasher;
use siphasher::sip128::{Hasher128, SipHasher as Sip128};
use std::fmt::Debug;
use std::hash::{Hash, Hasher};

#[derive(Serialize, Deserialize, Clone, Debug)]
enum Case {
    Doc { k: (u64, u64), toks: Vec<(String, u8)>, nums: Vec<u64>, order: u64, big: u16 },
    Centroid { k: (u64, u64), bases: Vec<u64>, flips: Vec<u8>, seed: u64, n: u16 },
    /// (token, times) blocks one after the other: extreme weights and long sequences
    Heavy { k: (u64, u64), groups: Vec<(u64, u32)>, order: u64, centroid: bool },
    Bits { a: (u64, u64), flips: Vec<u8>, flips2: Vec<u8> },
}
struct P;

fn bits_of(x: u128, i: usize) -> bool {
    (x >> i) & 1 == 1
}
fn h64<U: Hash>(k: (u64, u64), u: &U) -> u128 {
    let mut s = SipHasher::new_with_keys(k.0, k.1);
    u.hash(&mut s);
    s.finish() as u128
}
fn h128<U: Hash>(k: (u64, u64), u: &U) -> u128 {
    let mut s = Sip128::new_with_keys(k.0, k.1);
    u.hash(&mut s);
    s.finish128().as_u128()
}
fn vote<U: Hash>(w: usize, h: impl Fn(&U) -> u128, toks: &[U]) -> (u128, bool, bool) {
    let hs: Vec<u128> = toks.iter().map(|t| h(t)).collect();
    let mut r = 0u128;
    let (mut tie, mut close) = (false, false);
    for i in 0..w {
        let set = hs.iter().filter(|x| bits_of(**x, i)).count();
        let clear = hs.len() - set;
        if clear > set {
            r |= 1 << i;
        }
        tie |= clear == set && !hs.is_empty();
        close |= clear.abs_diff(set) == 1 && hs.len() > 1;
    }
    (r, tie, close)
}

fn doc<U: Hash + Clone + Debug>(k: (u64, u64), toks: &[U], order: u64, ctx: &mut Ctx) -> Res {
    let s64 = SimHash::<SimSipHasher64, u64, 64>::new(SimSipHasher64::new(k.0, k.1));
    let s128 = SimHash::<SimSipHasher128, u128, 128>::new(SimSipHasher128::new(k.0, k.1));
    let (e64, t, c) = vote(64, |u| h64(k, u), toks);
    let (e128, t2, c2) = vote(128, |u| h128(k, u), toks);
    if t || t2 {
        ctx.label("tied bit");
    }
    if c || c2 {
        ctx.label("bit decided by one token");
        ctx.nontrivial();
    }
    let g64 = s64.create_signature(toks.iter());
    let g128 = s128.create_signature(toks.iter());
    ctx.cmp();
    ensure!(g64 as u128 == e64, "64 bit signature {g64:#x} but the majority vote is {e64:#x} ({} tokens)", toks.len());
    ensure!(g128 == e128, "128 bit signature {g128:#x} but the majority vote is {e128:#x} ({} tokens)", toks.len());
    let mut p = toks.to_vec();
    let mut r = Sm(order);
    for i in (1..p.len()).rev() {
        p.swap(i, r.below(i as u64 + 1) as usize);
    }
    ensure!(s64.create_signature(p.iter()) == g64 && s128.create_signature(p.clone().into_iter()) == g128, "token order changes the signature");
    // doubling every weight changes nothing, and a fresh instance agrees
    let mut d = p.clone();
    d.extend(p.iter().cloned());
    let n64 = SimHash::<SimSipHasher64, u64, 64>::new(SimSipHasher64::new(k.0, k.1));
    let n128 = SimHash::<SimSipHasher128, u128, 128>::new(SimSipHasher128::new(k.0, k.1));
    ensure!(n64.create_signature(d.iter()) == g64 && n128.create_signature(d.iter()) == g128, "doubling all weights changes the signature");
    if toks.is_empty() {
        ensure!(g64 == 0 && g128 == 0, "no tokens give {g64:#x} {g128:#x}");
    }
    Ok(())
}

fn metric<S: SimHashBits>(w: usize, a: S, b: S, c: S, x: [u128; 3], high: impl Fn(u128) -> (u32, u64)) -> Res {
    ensure!(S::bit_length() == w, "bit_length {} for {w}", S::bit_length());
    let d = |p: u128, q: u128| (p ^ q).count_ones() as usize;
    for (p, q, i, j) in [(a, b, 0, 1), (b, a, 1, 0), (a, c, 0, 2), (b, c, 1, 2), (a, a, 0, 0)] {
        let e = d(x[i], x[j]);
        ensure!(p.hamming_distance(&q) == e, "distance {} of bit strings that differ in {e} places", p.hamming_distance(&q));
        let ang = e as f64 * std::f64::consts::PI / w as f64;
        ensure!((p.hamming_angle(&q) - ang).abs() < 1e-9, "angle {} for distance {e} of {w}", p.hamming_angle(&q));
    }
    ensure!(a.hamming_distance(&c) <= a.hamming_distance(&b) + b.hamming_distance(&c), "triangle inequality");
    for (s, v) in [(a, x[0]), (b, x[1]), (c, x[2])] {
        ensure!(SimHashBits::count_ones(s) == v.count_ones() as usize, "count_ones {} of {v:#x}", SimHashBits::count_ones(s));
        let (h32, hi64) = high(v);
        ensure!(s.to_u32_high_bits() == h32 && s.to_u64_high_bits() == hi64, "high bits {:#x} {:#x} of {v:#x}", s.to_u32_high_bits(), s.to_u64_high_bits());
    }
    Ok(())
}

/// Majority over weighted values; true where the count of ones / zeroes wins.
fn weighted(g: &[(u128, u64)], ones: bool) -> u128 {
    let total: u64 = g.iter().map(|x| x.1).sum();
    (0..128).fold(0, |r, i| {
        let set: u64 = g.iter().filter(|x| bits_of(x.0, i)).map(|x| x.1).sum();
        let win = if ones { set > total - set } else { total - set > set };
        if win { r | 1 << i } else { r }
    })
}

fn heavy(k: (u64, u64), groups: &[(u64, u32)], order: u64, centroid: bool, ctx: &mut Ctx) -> Res {
    let s64 = SimHash::<SimSipHasher64, u64, 64>::new(SimSipHasher64::new(k.0, k.1));
    let s128 = SimHash::<SimSipHasher128, u128, 128>::new(SimSipHasher128::new(k.0, k.1));
    let seq: Vec<u64> = groups.iter().flat_map(|(t, n)| std::iter::repeat(*t).take(*n as usize)).collect();
    let mut rev = seq.clone();
    rev.reverse();
    let mut mix = seq.clone();
    let mut r = Sm(order);
    for i in (1..mix.len()).rev() {
        mix.swap(i, r.below(i as u64 + 1) as usize);
    }
    if groups.iter().any(|g| g.1 > 127) && groups.len() > 1 {
        ctx.label("a token with more than 127 occurrences");
        ctx.nontrivial();
    }
    if groups.iter().any(|g| g.1 > 32767) && groups.len() > 1 {
        ctx.label("a token with more than 32767 occurrences");
    }
    for (name, v) in [("as given", &seq), ("reversed", &rev), ("shuffled", &mix)] {
        ctx.cmp();
        if centroid {
            let wide = |x: u64| (x as u128) << 64 | x.rotate_left(23) as u128;
            let e = weighted(&groups.iter().map(|(t, n)| (wide(*t), *n as u64)).collect::<Vec<_>>(), true);
            let g = s128.create_centroid(v.iter().map(|x| wide(*x)));
            ensure!(g == e, "centroid ({name}) of {} 128 bit signatures {g:#x}, majority {e:#x}", v.len());
            let e = weighted(&groups.iter().map(|(t, n)| (*t as u128, *n as u64)).collect::<Vec<_>>(), true) as u64;
            let g = s64.create_centroid(v.iter().copied());
            ensure!(g == e, "centroid ({name}) of {} 64 bit signatures {g:#x}, majority {e:#x}", v.len());
        } else {
            let e = weighted(&groups.iter().map(|(t, n)| (h64(k, t), *n as u64)).collect::<Vec<_>>(), false) as u64;
            let g = s64.create_signature(v.iter());
            ensure!(g == e, "64 bit signature ({name}) {g:#x} but the majority vote is {e:#x} ({} tokens)", v.len());
            let e = weighted(&groups.iter().map(|(t, n)| (h128(k, t), *n as u64)).collect::<Vec<_>>(), false);
            let g = s128.create_signature(v.iter());
            ensure!(g == e, "128 bit signature ({name}) {g:#x} but the majority vote is {e:#x} ({} tokens)", v.len());
        }
    }
    Ok(())
}

impl Property for P {
    type Case = Case;
    const ID: &'static str = "C12";
    const RULE: &'static str = "document (token multiset, keys), collection of signatures, or three bit strings; non-trivial if some bit is decided by a margin of one vote, or the bit strings differ";
    const ASSUMPTIONS: &'static [&'static str] = &["the siphasher crate computes SipHash (used as reference for token hashes)"];
    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        let key = || (prop_oneof![0u64..9, any::<u64>()], prop_oneof![0u64..9, any::<u64>()]);
        let doc = (
            key(),
            prop::collection::vec((prop_oneof![gens::word(), gens::text(5)], prop_oneof![4 => Just(1u8), 1 => 1u8..6]), 0..10),
            prop::collection::vec(any::<u64>(), 0..6),
            any::<u64>(),
            prop_oneof![8 => Just(0u16), 1 => 0u16..300],
        )
            .prop_map(|(k, toks, nums, order, big)| Case::Doc { k, toks, nums, order, big });
        let cen = (key(), prop::collection::vec(any::<u64>(), 1..4), prop::collection::vec(any::<u8>(), 0..10), any::<u64>(), 0u16..14)
            .prop_map(|(k, bases, flips, seed, n)| Case::Centroid { k, bases, flips, seed, n });
        let fl = || prop_oneof![prop::collection::vec(any::<u8>(), 0..8), prop::collection::vec(any::<u8>(), 0..130)];
        let bits = ((any::<u64>(), any::<u64>()), fl(), fl()).prop_map(|(a, flips, flips2)| Case::Bits { a, flips, flips2 });
        let times = prop_oneof![6 => 1u32..300, 3 => 120u32..140, 3 => 250u32..260, 2 => 300u32..3000];
        let heavy = (key(), prop::collection::vec((any::<u64>(), times), 2..5), any::<u64>(), any::<bool>())
            .prop_map(|(k, groups, order, centroid)| Case::Heavy { k, groups, order, centroid });
        let times = prop_oneof![2 => 32_700u32..32_800, 2 => 65_500u32..65_600, 1 => 3000u32..70_000];
        let huge = (key(), prop::collection::vec((any::<u64>(), times), 2..4), any::<u64>(), any::<bool>())
            .prop_map(|(k, groups, order, centroid)| Case::Heavy { k, groups, order, centroid });
        prop_oneof![8000 => doc, 6000 => cen, 4000 => bits, 100 => heavy, 2 => huge].boxed()
    }
    fn cases(t: Tier) -> u64 {
        if t == Tier::Quick { 600_000 } else { 12_000_000 }
    }
    fn large(t: Tier) -> Option<(BoxedStrategy<Case>, u64)> {
        let times = prop_oneof![1 => 1u32..3000, 3 => 65_500u32..66_000, 3 => 131_000u32..140_000, 1 => 250_000u32..300_000, 1 => 1_040_000u32..1_200_000];
        let s = (any::<(u64, u64)>(), prop::collection::vec((any::<u64>(), times), 2..4), any::<u64>(), any::<bool>())
            .prop_map(|(k, groups, order, centroid)| Case::Heavy { k, groups, order, centroid });
        Some((s.boxed(), if t == Tier::Quick { 48 } else { 480 }))
    }
    fn check(c: &Case, ctx: &mut Ctx) -> Res {
        match c {
            Case::Doc { k, toks, nums, order, big } => {
                let mut v: Vec<&str> = vec![];
                for (t, n) in toks {
                    for _ in 0..*n {
                        v.push(t)
                    }
                }
                if v.len() > toks.len() {
                    ctx.label("weighted tokens");
                }
                doc(*k, &v, *order, ctx)?;
                let mut nums = nums.clone();
                let mut r = Sm(*order);
                nums.extend((0..*big).map(|_| r.next() % 500));
                doc(*k, &nums, *order, ctx)
            }
            Case::Centroid { k, bases, flips, seed, n } => {
                let mut r = Sm(*seed);
                let v: Vec<u128> = (0..*n)
                    .map(|_| {
                        let b = bases[r.below(bases.len() as u64) as usize] as u128;
                        let mut x = b | (b.rotate_left(17) << 64);
                        for f in flips {
                            if r.next() & 1 == 1 {
                                x ^= 1 << (f % 128);
                            }
                        }
                        x
                    })
                    .collect();
                let (mut e, mut tight) = (0u128, false);
                for i in 0..128 {
                    let set = v.iter().filter(|x| bits_of(**x, i)).count();
                    if 2 * set > v.len() {
                        e |= 1 << i;
                    }
                    tight |= (2 * set).abs_diff(v.len()) <= 1;
                    if 2 * set == v.len() && !v.is_empty() {
                        ctx.label("centroid tie");
                    }
                }
                if tight && v.len() > 1 {
                    ctx.nontrivial();
                }
                ctx.cmp();
                let s128 = SimHash::<SimSipHasher128, u128, 128>::new(SimSipHasher128::new(k.0, k.1));
                let s64 = SimHash::<SimSipHasher64, u64, 64>::new(SimSipHasher64::new(k.0, k.1));
                let g = s128.create_centroid(v.iter().copied());
                ensure!(g == e, "centroid of {} 128 bit signatures {g:#x}, majority {e:#x}", v.len());
                let g = s64.create_centroid(v.iter().map(|x| *x as u64));
                ensure!(g == e as u64, "centroid of {} 64 bit signatures {g:#x}, majority {:#x}", v.len(), e as u64);
                Ok(())
            }
            Case::Heavy { k, groups, order, centroid } => {
                let mut g: Vec<(u64, u32)> = vec![];
                for x in groups {
                    if !g.iter().any(|y| y.0 == x.0) {
                        g.push(*x);
                    }
                }
                heavy(*k, &g, *order, *centroid, ctx)
            }
            Case::Bits { a, flips, flips2 } => {
                let x = (a.0 as u128) << 64 | a.1 as u128;
                let mut y = x;
                for f in flips {
                    y ^= 1 << (f % 128);
                }
                let mut z = y;
                for f in flips2 {
                    z ^= 1 << (f % 128);
                }
                if x != y {
                    ctx.nontrivial();
                    ctx.label("bit strings");
                }
                ctx.cmp();
                metric::<u128>(128, x, y, z, [x, y, z], |v| ((v >> 96) as u32, (v >> 64) as u64))?;
                let w = [x as u64, y as u64, z as u64];
                metric::<u64>(64, w[0], w[1], w[2], [w[0] as u128, w[1] as u128, w[2] as u128], |v| ((v as u64 >> 32) as u32, v as u64))
            }
        }
    }
}
fn main() {
    run_main::<P>()
}
