use gaoya::clustering::clustering_serial::*;
use gaoya::clustering::QueryIndex;
use gv::cl::*;
use gv::engine::*;
use gv::ensure;
use gv::mh::{between, Model, Sig, Val};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet, HashMap, HashSet};
use std::rc::Rc;

#[derive(Serialize, Deserialize, Clone, Debug)]
enum Source {
    Graph(Graph),
    /// a real MinHash index (bands, rows, threshold in hundredths, signatures)
    Index(usize, usize, u32, Vec<Sig>),
}
#[derive(Serialize, Deserialize, Clone, Debug)]
struct Case {
    src: Source,
    min: usize,
    /// successive calls: which points, in which order
    calls: Vec<Vec<u32>>,
    /// then one call over all points, in an order derived from this (0: no such call)
    #[serde(default)]
    whole: u64,
    /// minimum size relative to a neighbourhood's size instead of `min` (0: no)
    #[serde(default)]
    minsel: u64,
}
struct P;

struct G {
    pts: Vec<ClusterPoint<u32>>,
    adj: Adj,
}
impl QueryIndex for G {
    type Id = ClusterPoint<u32>;
    fn query(&self, id: &Self::Id) -> HashSet<&Self::Id> {
        self.adj[&id.id].iter().map(|i| &self.pts[*i as usize]).collect()
    }
}

fn run(c: &Case, n: u32, pts: &[ClusterPoint<u32>], adj: &Adj, ix: &dyn QueryIndex<Id = ClusterPoint<u32>>, ctx: &mut Ctx) -> Res {
    let min = pick_min(c.min, c.minsel, adj);
    let mut cl = Clusterer::<u32>::new(min);
    let mut all: Vec<Seen> = vec![];
    let mut input = BTreeSet::new();
    let mut prev: BTreeMap<u32, Option<u64>> = (0..n).map(|i| (i, None)).collect();
    let mut calls = c.calls.clone();
    if c.whole > 0 {
        let mut v: Vec<u32> = (0..n).collect();
        let mut r = gv::rng::Sm(c.whole);
        for i in (1..v.len()).rev() {
            v.swap(i, r.below(i as u64 + 1) as usize);
        }
        calls.push(v);
        if n > 64 {
            ctx.label("more than 64 points");
        }
    }
    for (k, call) in calls.iter().enumerate() {
        let mut l: Vec<ClusterPoint<u32>> = call.iter().map(|i| pts[(*i % n) as usize].clone()).collect();
        let out = cl.cluster(&mut l, ix);
        let mut after: Vec<u32> = l.iter().map(|p| p.id).collect();
        let mut before: Vec<u32> = call.iter().map(|i| *i % n).collect();
        after.sort();
        before.sort();
        ensure!(after == before, "call {k}: the list of points changed");
        input.extend(before);
        all.extend(out.iter().map(|c| Seen { id: c.cluster_id as u64, points: c.points.iter().map(|p| p.id).collect() }));
        let now: BTreeMap<u32, Option<u64>> = pts.iter().map(|p| (p.id, p.cluster.get().map(|x| x as u64))).collect();
        for (p, a) in &prev {
            ensure!(a.is_none() || now[p] == *a, "call {k}: point {p} moved from cluster {a:?} to {:?}", now[p]);
        }
        ctx.cmp();
        validate(&all, &now, adj, &input, min).map_err(|e| format!("call {k}: {e}"))?;
        if k > 0 && !out.is_empty() {
            ctx.label("new clusters in a later call");
        }
        prev = now;
    }
    if all.len() >= 2 {
        ctx.label("two or more clusters");
    }
    if all.iter().any(|s| s.points.len() == min && min > 1) {
        ctx.label("cluster of exactly the minimum size");
    }
    if all.iter().any(|s| s.points.len() >= 2) && prev.values().any(|a| a.is_none()) {
        ctx.nontrivial();
    }
    Ok(())
}

impl Property for P {
    type Case = Case;
    const ID: &'static str = "C19";
    const RULE: &'static str = "similarity graph or MinHash index + sequence of clustering calls; non-trivial if a cluster of two or more points and an unassigned point result";
    fn strategy(_: Tier) -> BoxedStrategy<Case> {
        let g = prop_oneof![3 => graph(8), 1 => graph(30)].prop_map(Source::Graph);
        let ix = (1usize..6, 1usize..4)
            .prop_flat_map(|(b, r)| (Just(b), Just(r), 0u32..100, prop::collection::vec(gv::mh::sig_strategy(b * r), 1..14)))
            .prop_map(|(b, r, t, s)| Source::Index(b, r, t, s));
        let calls = prop::collection::vec(prop::collection::vec(0u32..30, 0..24), 1..4);
        let big = (big_graph(), prop_oneof![1usize..6, 1usize..40], prop::collection::vec(prop::collection::vec(0u32..260, 0..60), 0..3), 1u64..u64::MAX, prop_oneof![Just(0u64), any::<u64>()])
            .prop_map(|(g, min, calls, whole, minsel)| Case { src: Source::Graph(g), min, calls, whole, minsel });
        let small = (prop_oneof![3 => g, 1 => ix], 1usize..6, calls, prop_oneof![3 => Just(0u64), 1 => any::<u64>()]).prop_map(|(src, min, calls, whole)| Case { src, min, calls, whole, minsel: 0 });
        prop_oneof![400 => small, 1 => big].boxed()
    }
    fn cases(t: Tier) -> u64 {
        if t == Tier::Quick { 800_000 } else { 16_000_000 }
    }
    fn large(t: Tier) -> Option<(BoxedStrategy<Case>, u64)> {
        let s = (huge_graph(), prop_oneof![3 => 1usize..4, 1 => 1usize..40, 1 => 1usize..400], prop::collection::vec(prop::collection::vec(0u32..3000, 0..60), 0..3), 1u64..u64::MAX, prop_oneof![Just(0u64), any::<u64>()])
            .prop_map(|(g, min, calls, whole, minsel)| Case { src: Source::Graph(g), min, calls, whole, minsel });
        Some((s.boxed(), if t == Tier::Quick { 240 } else { 4000 }))
    }
    fn check(c: &Case, ctx: &mut Ctx) -> Res {
        let mk = |n: u32| -> Vec<ClusterPoint<u32>> { (0..n).map(|i| Rc::new(ClusterPointInner::new(i))).collect() };
        match &c.src {
            Source::Graph(g) => {
                let pts = mk(g.n);
                let ix = G { pts: pts.clone(), adj: g.adj() };
                run(c, g.n, &pts, &g.adj(), &ix, ctx)
            }
            Source::Index(b, r, t, sigs) => {
                ctx.label("real index");
                let n = sigs.len() as u32;
                let pts = mk(n);
                let thr = *t as f64 / 100.0;
                let mut ix = gaoya::minhash::MinHashIndex::<u32, Sp>::new(*b, *r, thr);
                let mut m = Model::<u32>::new(*b, *r, thr);
                for (p, s) in pts.iter().zip(sigs) {
                    let s: Vec<u32> = s.make::<u32>(b * r);
                    ix.insert(Sp(p.clone()), s.clone());
                    m.insert(p.id, s);
                }
                let adj: Adj = m.live.iter().map(|(i, q)| (*i, m.within(m.must_cand(q), q))).collect();
                let w = Wrap { ix, by: pts.iter().map(|p| (p.id, p.clone())).collect() };
                for p in &pts {
                    let got: BTreeSet<u32> = QueryIndex::query(&w, p).into_iter().map(|x| x.id).collect();
                    between("clustering query", &got, &adj[&p.id], &adj[&p.id])?;
                }
                let _ = u32::sym(0);
                run(c, n, &pts, &adj, &w, ctx)
            }
        }
    }
}

/// Rc points cannot be put into the (Send + Sync) index directly, so users wrap them.
#[derive(Clone)]
struct Sp(ClusterPoint<u32>);
unsafe impl Send for Sp {}
unsafe impl Sync for Sp {}
impl PartialEq for Sp {
    fn eq(&self, o: &Self) -> bool {
        self.0 == o.0
    }
}
impl Eq for Sp {}
impl std::hash::Hash for Sp {
    fn hash<H: std::hash::Hasher>(&self, s: &mut H) {
        self.0.hash(s)
    }
}
struct Wrap {
    ix: gaoya::minhash::MinHashIndex<u32, Sp>,
    by: HashMap<u32, ClusterPoint<u32>>,
}
impl QueryIndex for Wrap {
    type Id = ClusterPoint<u32>;
    fn query(&self, id: &Self::Id) -> HashSet<&Self::Id> {
        QueryIndex::query(&self.ix, &Sp(id.clone())).into_iter().map(|s| &self.by[&s.0.id]).collect()
    }
}
fn main() {
    run_main::<P>()
}
