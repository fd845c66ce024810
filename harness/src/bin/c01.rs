use fnv::FnvBuildHasher;
use gaoya::minhash::*;
use gv::engine::*;
use gv::ensure;
use gv::gens;
use gv::rng::Sm;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::hash_map::DefaultHasher;
use std::fmt::Debug;
use std::hash::{BuildHasher, BuildHasherDefault, Hash};

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Case {
    hasher: u8,
    n: usize,
    seed: u64,
    toks: Toks,
    /// how the tokens are split into two parts, and shuffled/repeated
    shuffle: u64,
    extra: u8,
    /// further documents in the batch given to the bulk routes
    #[serde(default)]
    batch: u16,
    /// the signatures are computed in another process as well
    #[serde(default)]
    process: bool,
}
#[derive(Serialize, Deserialize, Clone, Debug)]
enum Toks {
    Str(Vec<String>),
    Num(Vec<u64>),
    Pair(Vec<(u8, String)>),
    /// `len` numbers (from a range of `span`) derived from a seed
    Long { seed: u64, len: u32, span: u64 },
}

fn show<T: Debug>(v: &[T]) -> String {
    if v.len() <= 40 { format!("{v:?}") } else { format!("{} tokens {:?}..", v.len(), &v[..10]) }
}

struct P;

/// What must hold for one MinHasher, whatever its width.
fn one<M, V, T, F>(what: &str, mk_seed: F, c: &Case, toks: &Vec<T>, part: &[bool], full: bool, ctx: &mut Ctx) -> Result<Vec<V>, String>
where
    M: MinHasher<V = V> + Sync + Send,
    V: MinHashType + Debug,
    T: Hash + Clone + Sync + Debug,
    F: Fn(u64) -> M,
{
    let mk = || mk_seed(c.seed);
    // an instance with another seed works on the same documents in between
    let other = mk_seed(c.seed.wrapping_add(1 + c.shuffle % 3));
    let foreign = other.create_signature(toks.iter());
    let m = mk();
    let sig = m.create_signature(toks.iter());
    ensure!(sig.len() == c.n, "{what}: signature has {} entries, {} hashes configured", sig.len(), c.n);
    // another instance, same configuration
    let again = mk().create_signature(toks.iter());
    ensure!(sig == again, "{what}: two instances with equal configuration disagree");
    // order and repetition
    let mut sh: Vec<T> = toks.clone();
    let mut r = Sm(c.shuffle);
    for _ in 0..c.extra {
        if !toks.is_empty() {
            sh.push(toks[r.below(toks.len() as u64) as usize].clone());
        }
    }
    for i in (1..sh.len()).rev() {
        sh.swap(i, r.below(i as u64 + 1) as usize);
    }
    let s2 = m.create_signature(sh.iter());
    ensure!(s2 == sig, "{what}: reordering/repeating tokens changed the signature: {} vs {}", show(toks), show(&sh));
    // by value instead of by reference
    let s3 = m.create_signature(sh.into_iter());
    ensure!(s3 == sig, "{what}: owned and borrowed tokens give different signatures");
    // parts
    let a: Vec<T> = toks.iter().zip(part).filter(|x| *x.1).map(|x| x.0.clone()).collect();
    let b: Vec<T> = toks.iter().zip(part).filter(|x| !*x.1).map(|x| x.0.clone()).collect();
    let (sa, sb) = (m.create_signature(a.iter()), m.create_signature(b.iter()));
    ctx.cmp();
    if full && !a.is_empty() && !b.is_empty() {
        let min: Vec<V> = sa.iter().zip(&sb).map(|(x, y)| *x.min(y)).collect();
        ensure!(min == sig, "{what}: signature of a union is not the minimum of the parts ({} + {})", show(&a), show(&b));
        ctx.label("proper union");
    }
    // bulk routes
    let mut batch: Vec<Vec<T>> = vec![toks.clone(), a.clone(), b.clone(), vec![], toks.clone()];
    let z: Vec<V> = vec![V::zero(); c.n];
    let e = m.create_signature(Vec::<T>::new().iter());
    ensure!(e == z, "{what}: empty collection gives {e:?}");
    let mut want = vec![sig.clone(), sa, sb, z, sig.clone()];
    for _ in 0..c.batch {
        let l = if toks.is_empty() || r.below(4) == 0 { 0 } else { 1 + r.below(toks.len().min(9) as u64) as usize };
        let at = r.below((toks.len() - l) as u64 + 1) as usize;
        want.push(m.create_signature(toks[at..at + l].iter()));
        batch.push(toks[at..at + l].to_vec());
    }
    if batch.len() > 64 {
        ctx.label("bulk batch of more than 64 documents, some empty");
    }
    let got = m.bulk_create_signature(&batch);
    ensure!(got == want, "{what}: bulk_create_signature differs from create_signature");
    let refs: Vec<&Vec<T>> = batch.iter().collect();
    let got = m.bulk_create_signature_refs(&refs);
    ensure!(got == want, "{what}: bulk_create_signature_refs differs from create_signature");
    // instances do not influence each other, and earlier documents leave no trace
    ensure!(other.create_signature(toks.iter()) == foreign && m.create_signature(toks.iter()) == sig, "{what}: the signature depends on what was hashed before");
    // the similarity shortcut compares exactly these signatures
    let d = m.compute_similarity(toks.iter(), a.iter());
    let eq = sig.iter().zip(&want[1]).filter(|(x, y)| x == y).count() as f64 / c.n as f64;
    ensure!((d - eq).abs() < 1e-9, "{what}: compute_similarity {d}, signatures agree on {eq}");
    Ok(sig)
}

fn widths<B: BuildHasher + Clone + Sync + Send, T: Hash + Clone + Sync + Debug>(c: &Case, bh: B, toks: &Vec<T>, ctx: &mut Ctx) -> Res {
    let mut r = Sm(c.shuffle ^ 77);
    let part: Vec<bool> = toks.iter().map(|_| r.next() & 1 == 1).collect();
    let n = c.n;
    let s64 = one("64 bit", |s| MinHasher64V1::new_with_hasher_and_seed(n, bh.clone(), s), c, toks, &part, true, ctx)?;
    let s32 = one("32 bit", |s| MinHasher32::new_with_hasher_and_seed(n, bh.clone(), s), c, toks, &part, true, ctx)?;
    let s16 = one("16 bit", |s| MinHasher16::new_with_hasher_and_seed(n, bh.clone(), s), c, toks, &part, false, ctx)?;
    let s8 = one("8 bit", |s| MinHasher8::new_with_hasher_and_seed(n, bh.clone(), s), c, toks, &part, false, ctx)?;
    for i in 0..n {
        ensure!(s16[i] == s32[i] as u16, "16 bit entry {i} is {} but the 32 bit one is {}", s16[i], s32[i]);
        ensure!(s8[i] == s32[i] as u8, "8 bit entry {i} is {} but the 32 bit one is {}", s8[i], s32[i]);
    }
    let nh = [
        MinHasher64V1::new_with_hasher(n, bh.clone()).num_hashes(),
        MinHasher32::new_with_hasher(n, bh.clone()).num_hashes(),
        MinHasher16::new_with_hasher(n, bh.clone()).num_hashes(),
        MinHasher8::new_with_hasher(n, bh.clone()).num_hashes(),
    ];
    ensure!(nh == [n; 4], "num_hashes reports {nh:?} for {n}");
    ensure!(MinHasher64V1::new(n).create_signature(toks.iter()) == MinHasher64V1::new_with_hasher(n, FnvBuildHasher::default()).create_signature(toks.iter()), "default 64 bit hasher differs from an explicit FNV one");
    ensure!(MinHasher32::new(n).create_signature(toks.iter()) == MinHasher32::new_with_hasher(n, FnvBuildHasher::default()).create_signature(toks.iter()), "default 32 bit hasher differs from an explicit FNV one");
    ensure!(MinHasher16::new(n).create_signature(toks.iter()) == MinHasher16::new_with_hasher(n, FnvBuildHasher::default()).create_signature(toks.iter()), "default 16 bit hasher differs from an explicit FNV one");
    ensure!(MinHasher8::new(n).create_signature(toks.iter()) == MinHasher8::new_with_hasher(n, FnvBuildHasher::default()).create_signature(toks.iter()), "default 8 bit hasher differs from an explicit FNV one");
    let _ = s64;
    Ok(())
}

fn hashers<T: Hash + Clone + Sync + Debug + Ord>(c: &Case, toks: &Vec<T>, ctx: &mut Ctx) -> Res {
    let mut d = toks.clone();
    d.sort();
    d.dedup();
    if d.len() >= 2 {
        ctx.nontrivial();
        if c.extra > 0 {
            ctx.label("repeated tokens");
        }
        if toks.len() > 4096 {
            ctx.label("more than 4096 tokens");
        }
        if toks.len() > 65536 {
            ctx.label("more than 65536 tokens");
        }
        if d.len() > 64 {
            ctx.label("more than 64 distinct tokens");
        }
    }
    if c.n > 64 {
        ctx.label("more than 64 hashes");
    }
    match c.hasher % 4 {
        0 => widths(c, FnvBuildHasher::default(), toks, ctx),
        1 => widths(c, SipHasher24BuildHasher::default(), toks, ctx),
        2 => widths(c, BuildHasherDefault::<Sha1Hasher>::default(), toks, ctx),
        _ => widths(c, BuildHasherDefault::<DefaultHasher>::default(), toks, ctx),
    }
}

/// A digest of the signatures of all widths, with the given and the default seed
fn digest(c: &Case) -> String {
    fn put<V: MinHashType + Debug>(all: &mut Vec<u8>, sig: Vec<V>) {
        all.extend(format!("{sig:?}").into_bytes());
    }
    fn of<B: BuildHasher + Clone, T: Hash>(c: &Case, bh: B, toks: &[T]) -> String {
        let mut all = vec![];
        put(&mut all, MinHasher64V1::new_with_hasher_and_seed(c.n, bh.clone(), c.seed).create_signature(toks.iter()));
        put(&mut all, MinHasher32::new_with_hasher_and_seed(c.n, bh.clone(), c.seed).create_signature(toks.iter()));
        put(&mut all, MinHasher16::new_with_hasher_and_seed(c.n, bh.clone(), c.seed).create_signature(toks.iter()));
        put(&mut all, MinHasher8::new_with_hasher_and_seed(c.n, bh.clone(), c.seed).create_signature(toks.iter()));
        put(&mut all, MinHasher64V1::new_with_hasher(c.n, bh.clone()).create_signature(toks.iter()));
        put(&mut all, MinHasher32::new(c.n).create_signature(toks.iter()));
        put(&mut all, MinHasher16::new(c.n).create_signature(toks.iter()));
        put(&mut all, MinHasher8::new(c.n).create_signature(toks.iter()));
        format!("{:016x}", gv::refhash::siphash24(1, 2, &all))
    }
    fn by<T: Hash>(c: &Case, toks: &[T]) -> String {
        match c.hasher % 4 {
            0 => of(c, FnvBuildHasher::default(), toks),
            1 => of(c, SipHasher24BuildHasher::default(), toks),
            2 => of(c, BuildHasherDefault::<Sha1Hasher>::default(), toks),
            _ => of(c, BuildHasherDefault::<DefaultHasher>::default(), toks),
        }
    }
    match &c.toks {
        Toks::Str(v) => by(c, v),
        Toks::Num(v) => by(c, v),
        Toks::Pair(v) => by(c, v),
        Toks::Long { .. } => String::new(),
    }
}

const CHILD: &str = "GV_C01_CHILD";

fn in_another_process(c: &Case, ctx: &mut Ctx) -> Res {
    use std::io::Write;
    use std::process::{Command, Stdio};
    let mine = digest(c);
    let child = Command::new(std::env::current_exe().map_err(|e| e.to_string())?)
        .env(CHILD, "1")
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::null())
        .spawn();
    // a process that cannot be started says nothing about the signatures
    let Ok(mut child) = child else { return Ok(()) };
    child.stdin.take().unwrap().write_all(serde_json::to_string(c).unwrap().as_bytes()).ok();
    let out = child.wait_with_output().map_err(|e| e.to_string())?;
    let theirs = String::from_utf8_lossy(&out.stdout).trim().to_string();
    if !out.status.success() || theirs.len() != 16 {
        return Ok(());
    }
    ctx.label("compared with another process");
    ensure!(mine == theirs, "another process computes other signatures for the same tokens (digest {theirs}, here {mine})");
    Ok(())
}

impl Property for P {
    type Case = Case;
    const ID: &'static str = "C01";
    const RULE: &'static str = "one token multiset x all four widths; non-trivial if it has at least two distinct tokens";
    fn strategy(t: Tier) -> BoxedStrategy<Case> {
        let max = if t == Tier::Quick { 120 } else { 600 };
        let toks = prop_oneof![
            3 => prop::collection::vec(gens::word(), 0..20).prop_map(Toks::Str),
            2 => prop::collection::vec(gens::text(8), 0..20).prop_map(Toks::Str),
            2 => prop::collection::vec(prop_oneof![any::<u64>(), 0u64..40], 0..40).prop_map(Toks::Num),
            1 => prop::collection::vec(0u64..1_000_000, 0..max).prop_map(Toks::Num),
            1 => prop::collection::vec((any::<u8>(), gens::word()), 0..20).prop_map(Toks::Pair),
        ];
        let long = (any::<u64>(), prop_oneof![4 => 100u32..1500, 3 => 1500u32..12_000, 1 => 12_000u32..70_000], prop_oneof![Just(u64::MAX), 10u64..100_000])
            .prop_map(|(seed, len, span)| Toks::Long { seed, len, span });
        let batch = || prop_oneof![12 => Just(0u16), 2 => 0u16..40, 1 => 40u16..200];
        // many hashes of a long document
        let both = (any::<u64>(), 1000u32..6000, prop_oneof![Just(u64::MAX), 10u64..100_000]).prop_map(|(seed, len, span)| Toks::Long { seed, len, span });
        let both = (0u8..4, 64usize..520, any::<u64>(), both, any::<u64>(), 0u8..12)
            .prop_map(|(hasher, n, seed, toks, shuffle, extra)| Case { hasher, n, seed, toks, shuffle, extra, batch: 0, process: false });
        let wide = (0u8..4, 1usize..9, any::<u64>(), prop::collection::vec(0u64..1000, 1..40).prop_map(Toks::Num), any::<u64>(), 0u8..12, 1000u16..9000)
            .prop_map(|(hasher, n, seed, toks, shuffle, extra, batch)| Case { hasher, n, seed, toks, shuffle, extra, batch, process: false });
        let long = (0u8..4, 1usize..9, any::<u64>(), long, any::<u64>(), 0u8..12, batch())
            .prop_map(|(hasher, n, seed, toks, shuffle, extra, batch)| Case { hasher, n, seed, toks, shuffle, extra, batch, process: false });
        let n = prop_oneof![4 => 1usize..24, 2 => 1usize..140, 1 => prop::sample::select(vec![1usize, 2, 64, 126, 128, 200, 256, 257, 300, 512, 1000, 1025])];
        let seed = prop_oneof![2 => 0u64..10, 2 => any::<u64>(), 1 => Just(3u64), 1 => Just(u64::MAX)];
        let short = (0u8..4, n, seed, toks, any::<u64>(), 0u8..12, batch())
            .prop_map(|(hasher, n, seed, toks, shuffle, extra, batch)| Case { hasher, n, seed, toks, shuffle, extra, batch, process: false });
        let short = (short, 0u16..400).prop_map(|(c, k)| Case { process: k == 399, ..c });
        prop_oneof![2400 => short, 20 => long, 2 => both, 2 => wide].boxed()
    }
    fn cases(t: Tier) -> u64 {
        if t == Tier::Quick { 60_000 } else { 1_200_000 }
    }
    fn check(c: &Case, ctx: &mut Ctx) -> Res {
        if c.process {
            in_another_process(c, ctx)?;
        }
        match &c.toks {
            Toks::Str(v) => hashers(c, v, ctx),
            Toks::Num(v) => hashers(c, v, ctx),
            Toks::Pair(v) => hashers(c, v, ctx),
            Toks::Long { seed, len, span } => {
                let mut r = Sm(*seed);
                let v: Vec<u64> = (0..*len).map(|_| r.next() % span).collect();
                hashers(c, &v, ctx)
            }
        }
    }
}
fn main() {
    if std::env::var(CHILD).is_ok() {
        let c: Case = serde_json::from_reader(std::io::stdin()).unwrap();
        println!("{}", digest(&c));
        return;
    }
    run_main::<P>()
}
