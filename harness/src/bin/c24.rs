use fnv::FnvBuildHasher;
use gaoya::minhash::*;
use gv::engine::*;
use gv::ensure;
use gv::refhash::{sha1, siphash24};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::hash::{BuildHasher, BuildHasherDefault, Hash, Hasher};

#[derive(Serialize, Deserialize, Clone, Debug)]
enum W {
    Bytes(u8, Vec<u8>),
    U8(u8, u8),
    U32(u8, u32),
    U64(u8, u64),
    /// any of the other integer writes
    Int(u8, u8, i64),
    Str(u8, String),
    Finish(u8),
    Fresh(u8),
}
#[derive(Serialize, Deserialize, Clone, Debug)]
struct Case {
    ops: Vec<W>,
    big: Vec<u8>,
    splits: Vec<u16>,
    toks: Vec<String>,
    n: usize,
    /// the long message is repeated this often (0: once)
    #[serde(default)]
    rep: u16,
    /// the position (in thousandths of the length) of the byte in which a second message differs
    #[serde(default)]
    flip: u16,
}
struct P;

/// Runs the operations on three hashers at once and compares every result with the reference.
fn streams<H: Hasher>(name: &str, mk: impl Fn() -> H, reference: impl Fn(&[u8]) -> u64, c: &Case, ctx: &mut Ctx) -> Res {
    let mut hs: Vec<(H, Vec<u8>)> = (0..3).map(|_| (mk(), vec![])).collect();
    let mut finishes = 0;
    for (k, op) in c.ops.iter().enumerate() {
        match op {
            W::Bytes(i, b) => {
                let s = &mut hs[*i as usize % 3];
                s.0.write(b);
                s.1.extend(b);
            }
            W::U8(i, v) => {
                let s = &mut hs[*i as usize % 3];
                s.0.write_u8(*v);
                s.1.extend(v.to_ne_bytes());
            }
            W::U32(i, v) => {
                let s = &mut hs[*i as usize % 3];
                s.0.write_u32(*v);
                s.1.extend(v.to_ne_bytes());
            }
            W::U64(i, v) => {
                let s = &mut hs[*i as usize % 3];
                v.hash(&mut s.0);
                s.1.extend(v.to_ne_bytes());
            }
            W::Int(i, kind, v) => {
                let s = &mut hs[*i as usize % 3];
                macro_rules! put {
                    ($f:ident, $t:ty) => {{
                        s.0.$f(*v as $t);
                        s.1.extend((*v as $t).to_ne_bytes());
                    }};
                }
                match kind % 9 {
                    0 => put!(write_u16, u16),
                    1 => put!(write_u128, u128),
                    2 => put!(write_usize, usize),
                    3 => put!(write_i8, i8),
                    4 => put!(write_i16, i16),
                    5 => put!(write_i32, i32),
                    6 => put!(write_i64, i64),
                    7 => put!(write_i128, i128),
                    _ => put!(write_isize, isize),
                }
            }
            W::Str(i, t) => {
                let s = &mut hs[*i as usize % 3];
                t.as_str().hash(&mut s.0);
                s.1.extend(t.as_bytes());
                s.1.push(0xff);
            }
            W::Finish(i) => {
                let s = &hs[*i as usize % 3];
                ctx.cmp();
                finishes += 1;
                let (a, b, e) = (s.0.finish(), s.0.finish(), reference(&s.1));
                ensure!(a == e && b == e, "{name}: op {k}: finish gives {a:#x} / {b:#x}, reference {e:#x} after {} bytes", s.1.len());
            }
            W::Fresh(i) => hs[*i as usize % 3] = (mk(), vec![]),
        }
    }
    for (i, s) in hs.iter().enumerate() {
        ctx.cmp();
        let (a, e) = (s.0.finish(), reference(&s.1));
        ensure!(a == e, "{name}: hasher {i} gives {a:#x}, reference {e:#x} after {} bytes", s.1.len());
        if s.1.len() >= 2 && finishes > 0 {
            ctx.nontrivial();
        }
        if s.1.len() > 64 {
            ctx.label("more than one block");
        }
    }
    // one long message, split arbitrarily
    let big = c.big.repeat(c.rep.max(1) as usize);
    if big.len() > 4096 {
        ctx.label("message of more than 4096 bytes");
    }
    let mut h = mk();
    let mut at = 0;
    for s in &c.splits {
        let e = (at + *s as usize).min(big.len());
        h.write(&big[at..e]);
        at = e;
    }
    h.write(&big[at..]);
    let (a, e) = (h.finish(), reference(&big));
    ensure!(a == e, "{name}: {} bytes in {} writes give {a:#x}, reference {e:#x}", big.len(), c.splits.len() + 1);
    // a message of the same length that differs in one byte, directly afterwards, and the first one again
    if !big.is_empty() {
        let at = (c.flip as usize * big.len() / 1000).min(big.len() - 1);
        let mut other = big.clone();
        other[at] ^= 1 << (c.n % 8);
        for (what, m, e) in [("the changed message", &other, reference(&other)), ("the message again", &big, e)] {
            let mut h = mk();
            h.write(m);
            let a = h.finish();
            ctx.cmp();
            ensure!(a == e, "{name}: {what}, differing at byte {at} of {}, gives {a:#x}, reference {e:#x}", big.len());
        }
    }
    Ok(())
}

fn plug<B: BuildHasher + Default + Sync + Send>(name: &str, c: &Case, reference: impl Fn(&str) -> u64) -> Res {
    // signatures built with a plugged hasher only see the token hashes it produces
    struct Fixed(u64);
    impl Hash for Fixed {
        fn hash<H: Hasher>(&self, s: &mut H) {
            s.write_u64(self.0)
        }
    }
    #[derive(Default, Clone)]
    struct Id;
    struct IdH(u64);
    impl Hasher for IdH {
        fn finish(&self) -> u64 {
            self.0
        }
        fn write(&mut self, _: &[u8]) {
            unreachable!()
        }
        fn write_u64(&mut self, v: u64) {
            self.0 = v
        }
    }
    impl BuildHasher for Id {
        type Hasher = IdH;
        fn build_hasher(&self) -> IdH {
            IdH(0)
        }
    }
    let pre: Vec<Fixed> = c.toks.iter().map(|t| Fixed(reference(t))).collect();
    macro_rules! w {
        ($t:ident) => {{
            let a = $t::new_with_hasher(c.n, B::default()).create_signature(c.toks.iter());
            let b = $t::new_with_hasher(c.n, B::default()).create_signature(c.toks.iter());
            ensure!(a == b, "{name}: {} signatures are not reproducible", stringify!($t));
            let e = $t::new_with_hasher(c.n, Id).create_signature(pre.iter());
            ensure!(a == e, "{name}: {} signature differs from the one of the reference token hashes", stringify!($t));
        }};
    }
    w!(MinHasher64V1);
    w!(MinHasher32);
    w!(MinHasher16);
    w!(MinHasher8);
    let _ = FnvBuildHasher::default();
    Ok(())
}

impl Property for P {
    type Case = Case;
    const ID: &'static str = "C24";
    const RULE: &'static str = "interleaved writes and reads on three hashers + one split message + one token list; non-trivial if a result is read after at least two bytes";
    const ASSUMPTIONS: &'static [&'static str] = &["reference SHA-1 and SipHash-2-4 of the harness (checked against published vectors at start)"];
    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        let w = prop_oneof![
            4 => (any::<u8>(), prop::collection::vec(any::<u8>(), 0..20)).prop_map(|(i, b)| W::Bytes(i, b)),
            1 => (any::<u8>(), prop::collection::vec(any::<u8>(), 40..150)).prop_map(|(i, b)| W::Bytes(i, b)),
            1 => (any::<u8>(), any::<u8>()).prop_map(|(i, b)| W::U8(i, b)),
            1 => (any::<u8>(), any::<u32>()).prop_map(|(i, b)| W::U32(i, b)),
            1 => (any::<u8>(), any::<u64>()).prop_map(|(i, b)| W::U64(i, b)),
            2 => (any::<u8>(), any::<u8>(), any::<i64>()).prop_map(|(i, k, v)| W::Int(i, k, v)),
            2 => (any::<u8>(), gv::gens::text(8)).prop_map(|(i, b)| W::Str(i, b)),
            3 => any::<u8>().prop_map(W::Finish),
            1 => any::<u8>().prop_map(W::Fresh),
        ];
        let len = prop_oneof![3 => 0usize..70, 1 => prop::sample::select(vec![0usize, 1, 7, 8, 9, 55, 56, 57, 63, 64, 65, 119, 120, 127, 128, 129]), 1 => 0usize..700];
        (
            prop::collection::vec(w, 0..14),
            len.prop_flat_map(|n| prop::collection::vec(any::<u8>(), n)),
            prop::collection::vec(0u16..80, 0..6),
            prop::collection::vec(gv::gens::word(), 0..6),
            1usize..20,
            prop_oneof![300 => Just(0u16), 2 => 1u16..60, 1 => 60u16..1000],
            prop_oneof![1 => Just(0u16), 1 => Just(1000u16), 4 => 0u16..1000],
        )
            .prop_map(|(ops, big, splits, toks, n, rep, flip)| Case { ops, big, splits, toks, n, rep, flip })
            .boxed()
    }
    fn cases(t: Tier) -> u64 {
        if t == Tier::Quick { 240_000 } else { 4_800_000 }
    }
    fn large(t: Tier) -> Option<(BoxedStrategy<Case>, u64)> {
        // long messages in few writes
        let s = (prop::collection::vec(any::<u8>(), 1..300), prop::collection::vec(any::<u16>(), 0..4), prop_oneof![8 => 100u16..2000, 4 => 2000u16..20_000, 1 => 40_000u16..65_000], 0u16..1001)
            .prop_map(|(big, splits, rep, flip)| Case { ops: vec![], big, splits, toks: vec![], n: 1, rep, flip });
        Some((s.boxed(), if t == Tier::Quick { 240 } else { 4000 }))
    }
    fn check(c: &Case, ctx: &mut Ctx) -> Res {
        let rs = |b: &[u8]| {
            let d = sha1(b);
            u64::from_be_bytes(d[..8].try_into().unwrap())
        };
        let rp = |b: &[u8]| siphash24(0, 0, b);
        streams("Sha1Hasher::new", Sha1Hasher::new, rs, c, ctx)?;
        streams("Sha1Hasher::default", Sha1Hasher::default, rs, c, ctx)?;
        let b = BuildHasherDefault::<Sha1Hasher>::default();
        streams("BuildHasherDefault<Sha1Hasher>", || b.build_hasher(), rs, c, ctx)?;
        let b = SipHasher24BuildHasher::default();
        streams("SipHasher24BuildHasher", || b.build_hasher(), rp, c, ctx)?;
        let tb = |t: &str| {
            let mut v = t.as_bytes().to_vec();
            v.push(0xff);
            v
        };
        plug::<BuildHasherDefault<Sha1Hasher>>("Sha1Hasher", c, |t| rs(&tb(t)))?;
        plug::<SipHasher24BuildHasher>("SipHasher24BuildHasher", c, |t| rp(&tb(t)))
    }
}
fn main() {
    gv::refhash::selftest();
    run_main::<P>()
}
