use gaoya::clustering::clusterer_parallel::*;
use gaoya::clustering::QueryIndex;
use gaoya::minhash::*;
use gv::cl::*;
use gv::engine::*;
use gv::ensure;
use gv::mh::{Model, Sig, Thr};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::hash::BuildHasher;
use std::alloc::{GlobalAlloc, Layout, System};
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering::{Relaxed, SeqCst}};
use std::sync::OnceLock;
use triomphe::Arc;

#[derive(Serialize, Deserialize, Clone, Debug)]
enum Case {
    /// cluster_par over a real index
    Par { b: usize, r: usize, thr: Thr, sigs: Vec<Sig>, min: usize, chunks: usize, pool: u8, calls: Vec<Vec<u32>>, sched: u64, #[serde(default)] many: (u16, u8), #[serde(default)] minsel: u64 },
    /// the single-threaded entry point over any similarity index
    Single { g: Graph, min: usize, calls: Vec<Vec<u32>>, #[serde(default)] whole: u64, #[serde(default)] minsel: u64 },
}
struct P;
type Pt = ClusterPoint<u32>;

// ------------------------------------------------ schedule perturbation inside index queries
static SCHED: AtomicU64 = AtomicU64::new(0);
static STEP: AtomicU64 = AtomicU64::new(0);
static ARRIVED: AtomicUsize = AtomicUsize::new(0);

fn perturb() {
    let s = SCHED.load(SeqCst);
    if s == 0 {
        return;
    }
    let k = STEP.fetch_add(1, SeqCst);
    let mut z = s.wrapping_add(k.wrapping_mul(0x9E3779B97F4A7C15));
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    match (z >> 7) % 8 {
        0 => std::thread::yield_now(),
        1 => {
            for _ in 0..(z >> 20) % 300 {
                std::hint::spin_loop()
            }
        }
        2 | 3 | 4 => {
            // rendezvous with another thread, bounded
            let n = ARRIVED.fetch_add(1, SeqCst) + 1;
            let want = n + (n & 1);
            for i in 0..2000 {
                if ARRIVED.load(SeqCst) >= want {
                    break;
                }
                if i % 64 == 63 {
                    std::thread::yield_now()
                }
                std::hint::spin_loop()
            }
        }
        _ => {}
    }
}

/// Allocations made while clustering runs are schedule points too: they lie between the steps of
/// creating a cluster, where no user code is called.
struct Alloc;
static ALLOCS: AtomicU64 = AtomicU64::new(0);
fn perturb_alloc() {
    let s = SCHED.load(Relaxed);
    if s % 4 < 2 {
        return;
    }
    let k = ALLOCS.fetch_add(1, Relaxed);
    let mut z = s.rotate_left(17).wrapping_add(k.wrapping_mul(0x9E3779B97F4A7C15));
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
    match (z >> 7) % 8 {
        0 => std::thread::yield_now(),
        1 => {
            for _ in 0..(z >> 20) % 1000 {
                std::hint::spin_loop()
            }
        }
        2 => {
            // let another thread make a few steps of its own
            for i in 0..400 {
                if ALLOCS.load(Relaxed) > k + 1 + (z >> 40) % 12 {
                    break;
                }
                if i % 64 == 63 {
                    std::thread::yield_now()
                }
                std::hint::spin_loop()
            }
        }
        _ => {}
    }
}
unsafe impl GlobalAlloc for Alloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        perturb_alloc();
        System.alloc(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        perturb_alloc();
        System.realloc(p, l, n)
    }
}
#[global_allocator]
static GLOBAL: Alloc = Alloc;

/// A user container that perturbs the schedule of concurrent queries.
struct Spy {
    v: Vec<Pt>,
}
impl IdContainer<Pt> for Spy {
    fn new() -> Self {
        Spy { v: vec![] }
    }
    fn push(&mut self, item: Pt) {
        if !self.v.contains(&item) {
            self.v.push(item)
        }
    }
    fn len(&self) -> usize {
        self.v.len()
    }
    fn copy_to<S: BuildHasher>(&self, set: &mut HashSet<Pt, S>) {
        set.extend(self.v.iter().cloned())
    }
    fn copy_refs_to<'a, S: BuildHasher>(&'a self, set: &mut HashSet<&'a Pt, S>) {
        set.extend(self.v.iter());
        perturb();
    }
    fn remove(&mut self, item: &Pt) {
        self.v.retain(|x| x != item)
    }
}

fn pool(i: u8) -> &'static rayon::ThreadPool {
    static POOLS: OnceLock<Vec<rayon::ThreadPool>> = OnceLock::new();
    let v = POOLS.get_or_init(|| [1, 2, 4, 8].iter().map(|n| rayon::ThreadPoolBuilder::new().num_threads(*n).build().unwrap()).collect());
    &v[i as usize % v.len()]
}

struct G {
    pts: Vec<Pt>,
    adj: Adj,
}
impl QueryIndex for G {
    type Id = Pt;
    fn query(&self, id: &Self::Id) -> HashSet<&Self::Id> {
        self.adj[&id.id].iter().map(|i| &self.pts[*i as usize]).collect()
    }
}

/// Runs the calls one after the other and validates everything after each.
fn run<F>(n: u32, pts: &[Pt], adj: &Adj, min: usize, calls: &[Vec<u32>], single: bool, ctx: &mut Ctx, mut f: F) -> Res
where
    F: FnMut(&mut Vec<Pt>) -> Vec<Box<Cluster<u32>>>,
{
    let mut kept: Vec<Box<Cluster<u32>>> = vec![];
    let mut input = BTreeSet::new();
    let mut prev: BTreeMap<u32, usize> = (0..n).map(|i| (i, 0)).collect();
    for (k, call) in calls.iter().enumerate() {
        let mut l: Vec<Pt> = call.iter().map(|i| pts[(*i % n) as usize].clone()).collect();
        let fresh = l.iter().filter(|p| !p.is_cluster_assigned()).count();
        let out = f(&mut l);
        let mut after: Vec<u32> = l.iter().map(|p| p.id).collect();
        let mut before: Vec<u32> = call.iter().map(|i| *i % n).collect();
        after.sort();
        before.sort();
        ensure!(after == before, "call {k}: the list of points changed");
        input.extend(before);
        if single {
            order(&out, &prev, adj, &input_of(call, n), min).map_err(|e| format!("call {k}: {e}"))?;
        }
        kept.extend(out);
        let addr: HashMap<usize, u64> = kept.iter().map(|c| (&**c as *const Cluster<u32> as usize, c.cluster_id as u64)).collect();
        let mut now = BTreeMap::new();
        for p in pts {
            let a = p.get_cluster() as usize;
            ensure!(p.is_cluster_assigned() == (a != 0), "is_cluster_assigned disagrees with the recorded cluster");
            ensure!(a == 0 || addr.contains_key(&a), "call {k}: point {} records a cluster that was never returned", p.id);
            ensure!(prev[&p.id] == 0 || prev[&p.id] == a, "call {k}: the assignment of point {} changed", p.id);
            now.insert(p.id, if a == 0 { None } else { Some(addr[&a]) });
            prev.insert(p.id, a);
        }
        let seen: Vec<Seen> = kept.iter().map(|c| Seen { id: c.cluster_id as u64, points: c.points.iter().map(|p| p.id).collect() }).collect();
        ctx.cmp();
        validate(&seen, &now, adj, &input, min).map_err(|e| format!("call {k}: {e}"))?;
        if fresh == 0 && !call.is_empty() {
            ctx.label("all points already assigned");
        }
    }
    if kept.len() >= 2 {
        ctx.label("two or more clusters");
    }
    if kept.iter().any(|s| s.points.len() == min && min > 1) {
        ctx.label("cluster of exactly the minimum size");
    }
    if kept.iter().any(|s| s.points.len() >= 2) && prev.values().any(|a| *a == 0) {
        ctx.nontrivial();
    }
    // clusters are dropped before the points' pointers could be followed again
    Ok(())
}
fn input_of(call: &[u32], n: u32) -> BTreeSet<u32> {
    call.iter().map(|i| *i % n).collect()
}

/// The clusters, in creation order, must arise from visiting points with more neighbours first.
fn order(out: &[Box<Cluster<u32>>], before: &BTreeMap<u32, usize>, adj: &Adj, input: &BTreeSet<u32>, min: usize) -> Res {
    let mut taken: BTreeSet<u32> = before.iter().filter(|x| *x.1 != 0).map(|x| *x.0).collect();
    for (k, c) in out.iter().enumerate() {
        let set: BTreeSet<u32> = c.points.iter().map(|p| p.id).collect();
        let free = |p: &u32| adj[p].iter().filter(|q| !taken.contains(q)).copied().collect::<BTreeSet<u32>>();
        let ok = set.iter().any(|s| {
            input.contains(s)
                && free(s) == set
                && input.iter().all(|q| adj[q].len() <= adj[s].len() || taken.contains(q) || free(q).len() < min)
        });
        ensure!(ok, "cluster number {k} {set:?} does not come from the unassigned point with the most neighbours");
        taken.extend(set);
    }
    Ok(())
}

impl Property for P {
    type Case = Case;
    const ID: &'static str = "C20";
    const RULE: &'static str = "points in a MinHash index (or similarity graph) + sequence of clustering calls, with perturbed schedules; non-trivial if a cluster of two or more points and an unassigned point result";
    const ASSUMPTIONS: &'static [&'static str] = &["thread schedules are perturbed (yields, spins, rendezvous inside index queries and at allocations), not enumerated"];
    const RETRIES: u32 = 25;
    const SHARDS: u64 = 1;
    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        let calls = || {
            prop_oneof![
                3 => Just(vec![(0u32..40).collect::<Vec<u32>>()]),
                2 => prop::collection::vec(prop::collection::vec(0u32..40, 0..40), 1..4),
                1 => prop::collection::vec(prop::collection::vec(0u32..40, 0..4), 1..4),
            ]
        };
        let par = (1usize..6, 1usize..4)
            .prop_flat_map(move |(b, r)| {
                let sig = prop_oneof![3 => (0u8..3).prop_map(|base| Sig { base, edits: vec![] }), 3 => gv::mh::sig_strategy(b * r)];
                (
                    (Just(b), Just(r), gv::mh::thr_strategy(), prop_oneof![1 => prop::collection::vec(sig.clone(), 1..8), 3 => prop::collection::vec(sig, 1..40)]),
                    prop_oneof![4 => 1usize..5, 1 => 1usize..16],
                    prop_oneof![5 => 1usize..10, 1 => Just(64usize)],
                    prop_oneof![1 => Just(0u8), 3 => 1u8..4],
                    calls(),
                    prop_oneof![1 => Just(0u64), 4 => any::<u64>()],
                    prop_oneof![150 => Just((0u16, 0u8)), 1 => (40u16..500, 0u8..4)],
                )
            })
            .prop_map(|((b, r, thr, sigs), min, chunks, pool, calls, sched, many)| Case::Par { b, r, thr, sigs, min, chunks, pool, calls, sched, many, minsel: 0 });
        let single = (prop_oneof![60 => graph(12), 1 => big_graph()], 1usize..5, calls(), prop_oneof![3 => Just(0u64), 1 => any::<u64>()]).prop_map(|(g, min, calls, whole)| Case::Single { g, min, calls, whole, minsel: 0 });
        prop_oneof![6 => par, 1 => single].boxed()
    }
    fn cases(t: Tier) -> u64 {
        if t == Tier::Quick { 30_000 } else { 600_000 }
    }
    fn large(t: Tier) -> Option<(BoxedStrategy<Case>, u64)> {
        let g = prop_oneof![1 => huge_graph(), 1 => big_graph()];
        let min = || prop_oneof![3 => 1usize..4, 1 => 1usize..40, 1 => 1usize..400];
        let single = (g, min(), prop::collection::vec(prop::collection::vec(0u32..3000, 0..60), 0..2), 1u64..u64::MAX, prop_oneof![Just(0u64), any::<u64>()])
            .prop_map(|(mut g, min, calls, whole, minsel)| {
                g.n = g.n.min(if whole % 2 == 0 { 5000 } else { 1200 });
                Case::Single { g, min, calls, whole, minsel }
            });
        let par = ((1usize..4, 1usize..3, gv::mh::thr_strategy()), min(), 1usize..17, 0u8..4, any::<u64>(), 600u16..2500, 0u8..4, prop_oneof![Just(0u64), any::<u64>()])
            .prop_map(|((b, r, thr), min, chunks, pool, sched, k, kind, minsel)| Case::Par { b, r, thr, sigs: vec![Sig { base: 0, edits: vec![] }], min, chunks, pool, calls: vec![], sched, many: (k, kind), minsel });
        Some((prop_oneof![2 => single, 1 => par].boxed(), if t == Tier::Quick { 120 } else { 2000 }))
    }
    fn check(c: &Case, ctx: &mut Ctx) -> Res {
        let mk = |n: u32| -> Vec<Pt> { (0..n).map(|i| Arc::new(ClusterPointInner::new(i))).collect() };
        match c {
            Case::Single { g, min, calls, whole, minsel } => {
                let min = &pick_min(*min, *minsel, &g.adj());
                ctx.label("single-threaded entry point");
                let pts = mk(g.n);
                let ix = G { pts: pts.clone(), adj: g.adj() };
                let cl = Clusterer::<u32, u32>::new(*min, 1);
                let mut calls = calls.clone();
                if *whole > 0 {
                    let mut v: Vec<u32> = (0..g.n).collect();
                    let mut r = gv::rng::Sm(*whole);
                    for i in (1..v.len()).rev() {
                        v.swap(i, r.below(i as u64 + 1) as usize);
                    }
                    calls.push(v);
                }
                run(g.n, &pts, &g.adj(), *min, &calls, true, ctx, |l| cl.cluster(l, &ix))
            }
            Case::Par { b, r, thr, sigs, min, chunks, pool: pl, calls, sched, many, minsel } => {
                let mut all: Vec<Vec<u32>> = sigs.iter().map(|s| s.make::<u32>(b * r)).collect();
                all.extend((0..many.0 as u32).map(|k| gv::mh::many_sig::<u32>(many.1, many.0, k, *b, *r)));
                let n = all.len() as u32;
                if n > 64 {
                    ctx.label("more than 64 points");
                }
                let pts = mk(n);
                let t = thr.get(b * r);
                let mut ix = MinHashIndex::<u32, Pt, Spy>::new_index(*b, *r, t);
                let mut m = Model::<u32>::new(*b, *r, t);
                for (p, s) in pts.iter().zip(&all) {
                    ix.insert(p.clone(), s.clone());
                    m.insert(p.id, s.clone());
                }
                let adj: Adj = m.live.iter().map(|(i, q)| (*i, m.within(m.must_cand(q), q))).collect();
                let min = &pick_min(*min, *minsel, &adj);
                let cl = Clusterer::<u32, u32>::new(*min, *chunks);
                if calls.iter().any(|c| c.len() < *chunks) {
                    ctx.label("fewer points than threads");
                }
                let conflicts = adj.values().any(|a| a.len() >= *min && a.len() > 1);
                if *chunks > 1 && *pl > 0 && conflicts {
                    ctx.label("several threads over overlapping neighbourhoods");
                }
                let p = pool(*pl);
                let mut calls: Vec<Vec<u32>> = calls.iter().map(|c| c.iter().copied().filter(|i| *i < n).collect()).collect();
                if many.0 > 0 {
                    calls.push((0..n).collect());
                }
                STEP.store(0, SeqCst);
                ARRIVED.store(0, SeqCst);
                ALLOCS.store(0, SeqCst);
                run(n, &pts, &adj, *min, &calls, false, ctx, |l| {
                    SCHED.store(*sched, SeqCst);
                    let out = p.install(|| cl.cluster_par(l, &ix));
                    SCHED.store(0, SeqCst);
                    out
                })
            }
        }
    }
}
fn main() {
    run_main::<P>()
}
