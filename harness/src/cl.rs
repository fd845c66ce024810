//! Oracle shared by the clustering properties (C19, C20).
use crate::engine::Res;
use crate::ensure;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet};

pub type Adj = BTreeMap<u32, BTreeSet<u32>>;

/// A similarity graph over points 0..n; neighbourhoods always contain the point itself.
#[derive(Serialize, Deserialize, Clone, Debug)]
pub struct Graph {
    pub n: u32,
    pub edges: Vec<(u32, u32)>,
    pub groups: Vec<Vec<u32>>,
    pub symmetric: bool,
}
impl Graph {
    pub fn adj(&self) -> Adj {
        let mut a: Adj = (0..self.n).map(|i| (i, BTreeSet::from([i]))).collect();
        let mut add = |x: u32, y: u32| {
            let (x, y) = (x % self.n, y % self.n);
            a.get_mut(&x).unwrap().insert(y);
            if self.symmetric {
                a.get_mut(&y).unwrap().insert(x);
            }
        };
        for (x, y) in &self.edges {
            add(*x, *y);
        }
        for g in &self.groups {
            for x in g {
                for y in g {
                    add(*x, *y);
                }
            }
        }
        a
    }
}
pub fn graph(max: u32) -> BoxedStrategy<Graph> {
    (1u32..=max)
        .prop_flat_map(|n| {
            (
                Just(n),
                prop::collection::vec((0..n, 0..n), 0..(2 * n as usize + 2)),
                prop::collection::vec(prop::collection::vec(0..n, 1..7), 0..4),
                prop::bool::weighted(0.7),
            )
        })
        .prop_map(|(n, edges, groups, symmetric)| Graph { n, edges, groups, symmetric })
        .boxed()
}

/// Up to a few hundred points in large overlapping groups.
pub fn big_graph() -> BoxedStrategy<Graph> {
    (40u32..260, any::<u64>(), 1u32..20, 0u32..40, prop::bool::weighted(0.8))
        .prop_map(|(n, seed, groups, edges, symmetric)| {
            let mut r = crate::rng::Sm(seed);
            let gs = (0..groups)
                .map(|_| {
                    let at = r.below(n as u64) as u32;
                    (at..(at + 1 + r.below(40) as u32).min(n)).collect()
                })
                .collect();
            let es = (0..edges).map(|_| (r.below(n as u64) as u32, r.below(n as u64) as u32)).collect();
            Graph { n, edges: es, groups: gs, symmetric }
        })
        .boxed()
}

/// Thousands of points: stars, long chains and many small groups.
pub fn huge_graph() -> BoxedStrategy<Graph> {
    (prop_oneof![2 => 300u32..1200, 1 => 1200u32..3000, 1 => Just(70_000u32)], any::<u64>(), 0u32..4, 0u32..3, 0u32..2, prop::bool::weighted(0.8))
        .prop_map(|(n, seed, stars, blobs, small, symmetric)| {
            let mut r = crate::rng::Sm(seed);
            let n = if n == 70_000 { if seed % 4 == 0 { 12_000 } else { 5000 } } else { n };
            let mut edges = vec![];
            for _ in 0..stars {
                let hub = r.below(n as u64) as u32;
                let k = (n as u64 / 4 + r.below(n as u64 * 3 / 4)) as u32;
                edges.extend((0..k).map(|i| (hub, (hub + 1 + i) % n)));
            }
            let mut groups: Vec<Vec<u32>> = (0..blobs)
                .map(|_| {
                    let at = r.below(n as u64) as u32;
                    (at..(at + 1 + r.below(60) as u32).min(n)).collect()
                })
                .collect();
            if small > 0 || stars + blobs == 0 {
                // hundreds of small groups
                let size = 1 + r.below(4) as u32;
                groups.extend((0..n / (size + 1)).map(|k| (k * (size + 1)..k * (size + 1) + size).collect()));
            }
            Graph { n, edges, groups, symmetric }
        })
        .boxed()
}

/// A minimum size next to the size of some neighbourhood (`sel` = 0: as given).
pub fn pick_min(min: usize, sel: u64, adj: &Adj) -> usize {
    if sel == 0 || adj.is_empty() {
        return min;
    }
    let mut sizes: Vec<usize> = adj.values().map(|a| a.len()).collect();
    sizes.sort();
    sizes.dedup();
    let s = sizes[(sel >> 3) as usize % sizes.len()] as i64;
    (s + (sel % 4) as i64 - 2).max(1) as usize
}

/// One returned cluster, as seen from outside.
#[derive(Clone, Debug)]
pub struct Seen {
    pub id: u64,
    pub points: Vec<u32>,
}

/// `assigned`: what each point of the universe records as its cluster (None: unassigned).
/// `input`: the points given to the clusterer so far.
pub fn validate(clusters: &[Seen], assigned: &BTreeMap<u32, Option<u64>>, adj: &Adj, input: &BTreeSet<u32>, min: usize) -> Res {
    let mut owner: BTreeMap<u32, u64> = BTreeMap::new();
    let mut idset = BTreeSet::new();
    for c in clusters {
        ensure!(idset.insert(c.id), "cluster id {} used twice", c.id);
        ensure!(c.points.len() >= min, "cluster {} has {} points, minimum {min}", c.id, c.points.len());
        let set: BTreeSet<u32> = c.points.iter().copied().collect();
        ensure!(set.len() == c.points.len(), "cluster {} lists a point twice: {:?}", c.id, c.points);
        ensure!(set.iter().any(|s| adj[s].len() >= set.len() && set.is_subset(&adj[s])), "cluster {} = {set:?} is not within the neighbourhood of any of its members", c.id);
        for p in set {
            if let Some(o) = owner.insert(p, c.id) {
                return Err(format!("point {p} is in clusters {o} and {}", c.id));
            }
        }
    }
    for (p, a) in assigned {
        ensure!(owner.get(p).copied() == *a, "point {p} records cluster {a:?} but is listed by {:?}", owner.get(p));
    }
    for p in input {
        if assigned[p].is_none() {
            let free = adj[p].iter().filter(|q| assigned.get(q).map_or(true, |a| a.is_none())).count();
            ensure!(free < min, "point {p} and {free} of its neighbours stayed unassigned, minimum cluster size {min}");
        }
    }
    Ok(())
}
