//! Graph, transposition, sorting, layering, subgraphs, chains, degrees, traversal.
use crate::core::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::collections::BTreeMap;
use trellis::error::Error;
use trellis::graph::{assert_graph_is_well_formed, Graph};
use trellis::layering::{create_layer_map, create_proper_graph, LayerMap};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct G {
    pub n: u32,
    pub edges: Vec<(u32, u32)>,
}

impl G {
    pub fn adj(&self) -> Vec<Vec<u32>> {
        let mut a = vec![Vec::new(); self.n as usize];
        for &(f, t) in &self.edges {
            a[f as usize].push(t);
        }
        a
    }
    pub fn build(&self) -> Graph {
        let mut g = Graph::new();
        for l in self.adj() {
            for t in l {
                g.push_to(t);
            }
            g.finish_from();
        }
        g
    }
    fn degrees(&self) -> (Vec<u32>, Vec<u32>) {
        let (mut i, mut o) = (vec![0; self.n as usize], vec![0; self.n as usize]);
        for &(f, t) in &self.edges {
            o[f as usize] += 1;
            i[t as usize] += 1;
        }
        (i, o)
    }
    /// Sinks first, or None if there is a cycle (Kahn).
    fn order(&self) -> Option<Vec<u32>> {
        let (_, mut out) = self.degrees();
        let mut pred = vec![Vec::new(); self.n as usize];
        for &(f, t) in &self.edges {
            pred[t as usize].push(f);
        }
        let mut q: Vec<u32> = (0..self.n).filter(|&v| out[v as usize] == 0).collect();
        let mut i = 0;
        while i < q.len() {
            for &p in &pred[q[i] as usize] {
                out[p as usize] -= 1;
                if out[p as usize] == 0 {
                    q.push(p);
                }
            }
            i += 1;
        }
        if q.len() == self.n as usize {
            Some(q)
        } else {
            None
        }
    }
    fn relabel(mut self, seed: u64) -> G {
        let p = perm(self.n, seed);
        for e in self.edges.iter_mut() {
            *e = (p[e.0 as usize], p[e.1 as usize]);
        }
        self
    }
}

pub fn perm(n: u32, mut seed: u64) -> Vec<u32> {
    let mut p: Vec<u32> = (0..n).collect();
    if seed == 0 {
        return p;
    }
    for i in (1..n as usize).rev() {
        seed = seed.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
        let j = ((seed >> 33) as usize) % (i + 1);
        p.swap(i, j);
    }
    p
}

fn seed() -> BoxedStrategy<u64> {
    prop_oneof![1 => Just(0u64), 3 => any::<u64>()].boxed()
}

fn sizes(t: Tier) -> BoxedStrategy<(u32, usize)> {
    // (vertices, at most that many edges)
    let big = t.pick(120u32, 400);
    prop_oneof![
        5 => (1u32..6, 0usize..12),
        5 => (4u32..16, 0usize..40),
        2 => (10u32..50, 0usize..120),
        1 => (30u32..big, 0usize..300),
    ]
    .boxed()
}

fn any_graph(t: Tier) -> BoxedStrategy<G> {
    sizes(t)
        .prop_flat_map(|(n, m)| vec((0..n, 0..n), 0..=m).prop_map(move |edges| G { n, edges }))
        .boxed()
}

fn dag(t: Tier) -> BoxedStrategy<G> {
    sizes(t)
        .prop_flat_map(|(n, m)| (Just(n), vec((0..n, 0..n), 0..=m), seed()))
        .prop_map(|(n, e, s)| {
            let edges = e.into_iter().filter(|(a, b)| a != b).map(|(a, b)| (a.max(b), a.min(b))).collect();
            G { n, edges }.relabel(s)
        })
        .boxed()
}

/// A DAG with short edges, so that it has many layers.
fn deep_dag(t: Tier) -> BoxedStrategy<G> {
    sizes(t)
        .prop_flat_map(|(n, m)| (Just(n), vec((0..n, 1u32..4), 0..=m), seed()))
        .prop_map(|(n, e, s)| {
            let edges = e.into_iter().filter(|(a, d)| a >= d).map(|(a, d)| (a, a - d)).collect();
            G { n, edges }.relabel(s)
        })
        .boxed()
}

fn near_dag(t: Tier) -> BoxedStrategy<G> {
    (prop_oneof![dag(t), deep_dag(t)], vec((any::<u32>(), any::<u32>()), 1..3))
        .prop_map(|(mut g, extra)| {
            for (a, b) in extra {
                g.edges.push((a % g.n, b % g.n));
            }
            g
        })
        .boxed()
}

/// Paths through fresh vertices between a few hubs, rings, and isolated vertices.
fn chainy(t: Tier) -> BoxedStrategy<G> {
    let n_paths = t.pick(10, 24);
    (1u32..6, vec((any::<u32>(), any::<u32>(), 0u32..5), 0..n_paths), vec((any::<u32>(), any::<u32>()), 0..3), vec(1u32..4, 0..3), 0u32..3, seed())
        .prop_map(|(hubs, paths, extra, rings, iso, s)| {
            let mut n = hubs;
            let mut edges = Vec::new();
            for (a, b, len) in paths {
                let mut prev = a % hubs;
                for _ in 0..len {
                    edges.push((prev, n));
                    prev = n;
                    n += 1;
                }
                edges.push((prev, b % hubs));
            }
            for len in rings {
                for i in 0..len {
                    edges.push((n + i, n + (i + 1) % len));
                }
                n += len;
            }
            n += iso;
            for (a, b) in extra {
                edges.push((a % n, b % n));
            }
            // order of insertion is independent of the labels
            let order = perm(edges.len() as u32, s);
            let edges = order.iter().map(|&i| edges[i as usize]).collect();
            G { n, edges }.relabel(s)
        })
        .boxed()
}

/// Several blocks with few edges between them.
fn blocks(t: Tier) -> BoxedStrategy<G> {
    let nb = t.pick(8, 20);
    (vec((1u32..7, vec((any::<u32>(), any::<u32>()), 0..8)), 1..nb), vec((any::<u32>(), any::<u32>()), 0..4), seed())
        .prop_map(|(bl, cross, s)| {
            let mut n = 0;
            let mut edges = Vec::new();
            for (k, es) in bl {
                for (a, b) in es {
                    edges.push((n + a % k, n + b % k));
                }
                n += k;
            }
            for (a, b) in cross {
                edges.push((a % n, b % n));
            }
            let order = perm(edges.len() as u32, s.rotate_left(7));
            let edges = order.iter().map(|&i| edges[i as usize]).collect();
            G { n, edges }.relabel(s)
        })
        .boxed()
}

fn long_path(t: Tier) -> BoxedStrategy<G> {
    (200u32..t.pick(1500, 6000), seed(), any::<bool>(), any::<u32>())
        .prop_map(|(n, s, back, at)| {
            let mut edges: Vec<(u32, u32)> = (0..n - 1).map(|i| (i, i + 1)).collect();
            if back {
                edges.push((n - 1 - at % 3, at % n));
            }
            G { n, edges }.relabel(s)
        })
        .boxed()
}

/// A path of up to 70 000 vertices, each one after those that it leads to but for blocks of
/// a few (the traversals keep a short stack); some more edges.
fn stairs(_: Tier, acyclic: bool) -> BoxedStrategy<G> {
    (prop_oneof![1 => 2_000u32..65_530, 2 => 65_530u32..70_000], 1u32..40, vec((any::<u32>(), any::<u32>()), 0..4), any::<u32>())
        .prop_map(move |(n, k, more, back)| {
            let at = |i: u32| { let b = i / k * k; b + (k.min(n - b) - 1 - (i - b)) };
            let mut edges: Vec<(u32, u32)> = (1..n).map(|i| (at(i), at(i - 1))).collect();
            edges.extend(more.iter().map(|&(a, b)| (a % n, b % n)).filter(|(a, b)| a != b).map(|(a, b)| (at(a.max(b)), at(a.min(b)))));
            if !acyclic && back % 8 == 0 {
                // a cycle that is found last
                edges.push((at(n - 2 - back / 8 % 3), at(n - 1)));
            }
            G { n, edges }
        })
        .boxed()
}

/// Many small pieces that come first, then vertices that join two of them each: in a row from
/// either end, or anywhere.
fn joined(_: Tier) -> BoxedStrategy<G> {
    (2u32..400, 0u8..5, any::<u64>(), vec((any::<u32>(), any::<u32>()), 0..6))
        .prop_map(|(k, order, mut x, more)| {
            let mut next = |k: u32| {
                x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                (x >> 33) as u32 % k
            };
            let piece = |p: u32| 2 * p;
            let mut edges: Vec<(u32, u32)> = (0..k).map(|p| (2 * p, 2 * p + 1)).collect();
            let mut n = 2 * k;
            let row: Vec<(u32, u32)> = (1..k).map(|p| (p, p - 1)).filter(|_| next(40) > 0).collect();
            let mut joins: Vec<(u32, u32)> = match order {
                0 => row,
                1 => row.into_iter().rev().collect(),
                2 => row.into_iter().rev().filter(|j| j.0 % 5 != 0).collect(),
                3 => (0..k).map(|_| (next(k), next(k))).collect(),
                _ => (0..k / 2).map(|_| { let a = next(k); (a, (a + 1 + next(3)) % k) }).collect(),
            };
            joins.extend(more.iter().map(|&(a, b)| (a % k, b % k)));
            for (a, b) in joins {
                edges.push((n, piece(a)));
                edges.push((n, piece(b)));
                n += 1;
            }
            G { n, edges }
        })
        .boxed()
}

/// Hubs with many edges, and short chains around them.
fn star(_: Tier) -> BoxedStrategy<G> {
    let deg = || prop_oneof![6 => 0u32..6, 3 => 14u32..20, 1 => 250u32..260, 1 => 300u32..520];
    (vec((deg(), deg(), 0u32..3), 1..4), vec((any::<u32>(), any::<u32>()), 0..4), seed())
        .prop_map(|(hubs, extra, s)| {
            let mut n = hubs.len() as u32;
            let mut edges = Vec::new();
            for (h, (i, o, len)) in hubs.into_iter().enumerate() {
                let h = h as u32;
                for _ in 0..i {
                    edges.push((n, h));
                    n += 1;
                }
                for _ in 0..o {
                    let mut prev = h;
                    for _ in 0..=len {
                        edges.push((prev, n));
                        prev = n;
                        n += 1;
                    }
                }
            }
            for (a, b) in extra {
                edges.push((a % n, b % n));
            }
            G { n, edges }.relabel(s)
        })
        .boxed()
}

/// Few edges between vertices with large numbers.
fn wide(_: Tier) -> BoxedStrategy<G> {
    (65_500u32..70_000)
        .prop_flat_map(|n| (Just(n), vec((prop_oneof![Just(0), 60u32..70, 250u32..260, 65_480u32..n, 0..n], 1u32..400), 1..14), any::<bool>()))
        .prop_map(|(n, e, loose)| {
            let edges = e
                .into_iter()
                .map(|(a, d)| {
                    let b = (a as u64 * 7 + d as u64 * 601) as u32 % n;
                    if loose { (a, b) } else { (a.max(b), if a == b { (a + 1) % n } else { a.min(b) }) }
                })
                .filter(|(a, b)| loose || a > b)
                .collect();
            G { n, edges }
        })
        .boxed()
}
fn wide_dag(t: Tier) -> BoxedStrategy<G> {
    wide(t).prop_map(|mut g| {
        for e in g.edges.iter_mut() {
            *e = (e.0.max(e.1), e.0.min(e.1));
        }
        g.edges.retain(|e| e.0 != e.1);
        g
    }).boxed()
}

/// More than 65536 edges between a few vertices, many of them from or to one.
fn many_edges(_: Tier, acyclic: bool) -> BoxedStrategy<G> {
    (2u32..400, 66_000u32..80_000, any::<u32>())
        .prop_map(move |(n, m, x)| {
            let at = |i: u32| i.wrapping_mul(x | 1).rotate_left(11) % n;
            let edges = (0..m).map(|i| if x % 3 == 0 { (at(i), i % n) } else if x % 3 == 1 { (n - 1, at(i)) } else { (at(i), 0) });
            let edges = if acyclic { edges.filter(|(a, b)| a != b).map(|(a, b)| (a.max(b), a.min(b))).collect() } else { edges.collect() };
            G { n, edges }
        })
        .boxed()
}

/// Hundreds of vertices and up to thousands of edges: anything, blocks, or acyclic.
fn large(_: Tier, acyclic: bool) -> BoxedStrategy<G> {
    (150u32..1500, 100usize..5000, any::<u64>(), 0u8..4, seed())
        .prop_map(move |(n, m, mut x, kind, s)| {
            let mut next = |k: u32| {
                x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                (x >> 33) as u32 % k
            };
            let mut edges = Vec::new();
            for _ in 0..m {
                let a = next(n);
                let b = match kind {
                    0 => next(n),
                    1 => (a / 40 * 40 + next(40)).min(n - 1),
                    2 => (a + 1 + next(3)) % n,
                    _ => if next(20) > 0 { next(a + 1) } else { 0 },
                };
                edges.push((a, b));
            }
            if acyclic {
                edges = edges.into_iter().filter(|(a, b)| a != b).map(|(a, b)| (a.max(b), a.min(b))).collect();
            }
            G { n, edges }.relabel(s)
        })
        .boxed()
}

/// Tens of thousands of vertices in simple pieces: one path, pairs, chains around a hub,
/// short segments whose edges come in any order. `flat`: no long paths; acyclic.
fn pieces(_: Tier, flat: bool) -> BoxedStrategy<G> {
    (prop_oneof![1 => 2_000u32..40_000, 2 => 131_000u32..140_000], 0u8..4, 2u32..40, any::<u32>(), seed())
        .prop_map(move |(n, kind, k, back, s)| {
            let mut edges: Vec<(u32, u32)> = match kind {
                0 => (1..n).filter(|i| !flat || i % k != 0).map(|i| (i, i - 1)).collect(),
                1 => (1..n).step_by(2).map(|i| (i, i - 1)).collect(),
                2 => (1..n - 1).step_by(2).flat_map(|i| [(0, i), (i, i + 1)]).collect(),
                _ => (1..n).filter(|i| i % k != 0).map(|i| (i, i - 1)).collect(),
            };
            if kind == 3 {
                // every other edge first
                edges.sort_by_key(|e| e.0 % 2);
            }
            if !flat && back % 4 == 0 {
                edges.push((back % n, back / 7 % n));
            }
            G { n, edges }.relabel(s)
        })
        .boxed()
}

fn empty() -> BoxedStrategy<G> {
    (0u32..3).prop_map(|n| G { n, edges: vec![] }).boxed()
}

pub fn graphs(t: Tier) -> BoxedStrategy<G> {
    prop_oneof![3000 => any_graph(t), 2000 => dag(t), 1500 => deep_dag(t), 1500 => near_dag(t), 2000 => chainy(t), 2000 => blocks(t), 300 => star(t), 50 => empty(), 4 => wide(t), 6 => large(t, false), 2 => long_path(t), 1 => many_edges(t, false), 1 => pieces(t, false)].boxed()
}
fn acyclic(t: Tier) -> BoxedStrategy<G> {
    prop_oneof![2000 => dag(t), 2000 => deep_dag(t), 20 => empty(), 2 => wide_dag(t), 3 => large(t, true), 1 => pieces(t, true), 1 => stairs(t, true)].boxed()
}
fn mostly_acyclic(t: Tier) -> BoxedStrategy<G> {
    prop_oneof![300 => dag(t), 300 => deep_dag(t), 300 => near_dag(t), 100 => any_graph(t), 60 => chainy(t), 60 => blocks(t), 60 => star(t), 10 => empty(), 1 => wide(t), 1 => wide_dag(t), 1 => long_path(t), 1 => large(t, false), 1 => large(t, true), 1 => many_edges(t, true), 1 => pieces(t, true), 1 => stairs(t, false)].boxed()
}

fn sorted(mut v: Vec<u32>) -> Vec<u32> {
    v.sort();
    v
}

// ---------------------------------------------------------------- G01

struct Transpose;
impl Part for Transpose {
    type Case = G;
    const NAME: &'static str = "transpose";
    fn cases(t: Tier) -> u64 {
        t.pick(1_500_000, 20_000_000)
    }
    fn strategy(t: Tier) -> BoxedStrategy<G> {
        graphs(t)
    }
    fn check(c: &G, cx: &mut Ctx) -> Check {
        let g = c.build();
        let before = g.clone();
        let t = g.transpose();
        ensure!(g == before, "transpose changed its input");
        let mut pred = vec![Vec::new(); c.n as usize];
        for &(f, to) in &c.edges {
            pred[to as usize].push(f);
        }
        ensure_eq!(t.num_verts(), c.n as usize, "vertices of the transposition");
        ensure_eq!(t.num_edges(), c.edges.len(), "edges of the transposition");
        for v in 0..c.n {
            ensure_eq!(t.edges_from(v).to_vec(), sorted(pred[v as usize].clone()), "edges from {}", v);
        }
        assert_graph_is_well_formed(&t);
        let tt = t.transpose();
        let adj = c.adj();
        ensure_eq!(tt.num_verts(), c.n as usize, "vertices of the double transposition");
        for v in 0..c.n {
            ensure_eq!(tt.edges_from(v).to_vec(), sorted(adj[v as usize].clone()), "double transposition: edges from {}", v);
        }
        cx.nt_if(c.edges.len() >= 3 && pred.iter().any(|p| p.len() >= 2));
        Ok(())
    }
}

// ---------------------------------------------------------------- G02

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum BOp {
    Edge(u32, u32),
    FromTo(u32, Vec<u32>),
    Path(Vec<u32>),
}

struct BuilderP;
impl Part for BuilderP {
    type Case = Vec<BOp>;
    const NAME: &'static str = "builder";
    fn cases(t: Tier) -> u64 {
        t.pick(800_000, 10_000_000)
    }
    fn strategy(_: Tier) -> BoxedStrategy<Vec<BOp>> {
        let ops = |k: u32| {
            vec(
                prop_oneof![
                    2 => (0..k, 0..k).prop_map(|(a, b)| BOp::Edge(a, b)),
                    1 => (0..k, vec(0..k, 0..4)).prop_map(|(a, b)| BOp::FromTo(a, b)),
                    1 => vec(0..k, 0..5).prop_map(BOp::Path),
                ],
                0..10,
            )
        };
        prop_oneof![ops(5), ops(20), ops(300)].boxed()
    }
    fn check(c: &Vec<BOp>, cx: &mut Ctx) -> Check {
        let mut b = trellis::testing::graph_builder();
        let mut edges: Vec<(u32, u32)> = Vec::new();
        let mut only_paths = true;
        for op in c {
            match op {
                BOp::Edge(f, t) => {
                    b.edge(*f, *t);
                    edges.push((*f, *t));
                    only_paths = false;
                }
                BOp::FromTo(f, ts) => {
                    let mut h = b.from(*f);
                    let mut f = *f;
                    for t in ts {
                        h = h.to(*t);
                        edges.push((f, *t));
                        f = *t;
                    }
                    let _ = h;
                    only_paths = false;
                }
                BOp::Path(p) => {
                    b.path(p);
                    for w in p.windows(2) {
                        edges.push((w[0], w[1]));
                    }
                }
            }
        }
        let n = edges.iter().map(|e| e.0.max(e.1) + 1).max().unwrap_or(0);
        let m = G { n, edges };
        let g = b.build();
        same(&g, &m)?;
        ensure!(g == m.build(), "graphs with equal edges differ");
        if only_paths {
            let paths: Vec<&[u32]> = c.iter().map(|o| if let BOp::Path(p) = o { &p[..] } else { &[] }).collect();
            same(&trellis::testing::graph_from_paths(&paths), &m)?;
        }
        cx.nt_if(m.edges.len() >= 3);
        Ok(())
    }
}

fn same(g: &Graph, m: &G) -> Check {
    let adj = m.adj();
    ensure_eq!(g.num_verts(), m.n as usize, "num_verts");
    ensure_eq!(g.num_edges(), m.edges.len(), "num_edges");
    for v in 0..m.n {
        ensure_eq!(g.edges_from(v), &adj[v as usize][..], "edges_from({})", v);
    }
    let flat: Vec<(u32, u32)> = adj.iter().enumerate().flat_map(|(f, l)| l.iter().map(move |t| (f as u32, *t))).collect();
    ensure_eq!(g.iter_edges_flattened().collect::<Vec<_>>(), flat, "iter_edges_flattened");
    let fe: Vec<(u32, Vec<u32>)> = g.iter_from_edges().map(|(f, l)| (f, l.to_vec())).collect();
    ensure_eq!(fe, adj.iter().enumerate().map(|(f, l)| (f as u32, l.clone())).collect::<Vec<_>>(), "iter_from_edges");
    let mut twin = g.clone();
    ensure!(twin == *g && !(twin != *g), "a clone differs from its original");
    twin.finish_from();
    ensure!(twin != *g && *g != twin, "a graph with another vertex is equal");
    twin.clone_from(g);
    ensure!(twin == *g, "a graph differs from its original after clone_from");
    if let Some(e) = flat.last() {
        // one edge leads elsewhere
        let mut other = Graph::new();
        for (v, l) in adj.iter().enumerate() {
            for (i, t) in l.iter().enumerate() {
                other.push_to(if v as u32 == e.0 && i + 1 == l.len() { (t + 1) % m.n.max(2) } else { *t });
            }
            other.finish_from();
        }
        ensure!(other != *g, "a graph with another edge is equal");
    }
    let h = flat.iter().take(20).fold(flat.len() as u64, |h, e| h.wrapping_mul(31).wrapping_add((e.0 * 7 + e.1) as u64));
    drive_all("iter_edges_flattened", g.iter_edges_flattened(), |e| e, &flat, mix(h, 1))?;
    drive_all("iter_from_edges", g.iter_from_edges(), |(f, l)| (f, l.to_vec()), &fe, mix(h, 2))?;
    ensure_eq!(g.edges().len(), m.n as usize, "edges().len()");
    ensure_eq!(g.edges().iter_pairs().map(|(k, v)| (k as u32, *v)).collect::<Vec<_>>(), flat, "edges().iter_pairs()");
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct WellCase {
    g: G,
    bad: Option<(u16, u32)>,
}
struct WellFormed;
impl Part for WellFormed {
    type Case = WellCase;
    const NAME: &'static str = "push-and-well-formed";
    fn cases(t: Tier) -> u64 {
        t.pick(600_000, 8_000_000)
    }
    fn strategy(t: Tier) -> BoxedStrategy<WellCase> {
        (graphs(t), proptest::option::of((any::<u16>(), prop_oneof![3 => 0u32..3, 1 => any::<u32>()]))).prop_map(|(g, bad)| WellCase { g, bad }).boxed()
    }
    fn check(c: &WellCase, cx: &mut Ctx) -> Check {
        let mut g = c.g.build();
        same(&g, &c.g)?;
        let r = catch(|| assert_graph_is_well_formed(&g));
        ensure!(r.is_ok(), "a well-formed graph is rejected: {:?}", r);
        if let (Some((at, by)), true) = (c.bad, !c.g.edges.is_empty()) {
            // one edge to a vertex that does not exist
            let i = at as usize % c.g.edges.len();
            let old = g.edges_mut().all_values()[i];
            g.edges_mut().all_values_mut()[i] = c.g.n.saturating_add(by);
            let r = catch(|| assert_graph_is_well_formed(&g));
            ensure!(r.is_err(), "an edge to vertex {} of {} is accepted", c.g.n.saturating_add(by), c.g.n);
            g.edges_mut().all_values_mut()[i] = old;
            same(&g, &c.g)?;
            cx.nt();
        }
        cx.nt_if(c.g.edges.len() >= 3);
        Ok(())
    }
}

// ---------------------------------------------------------------- G03

struct Topo;
impl Part for Topo {
    type Case = G;
    const NAME: &'static str = "topo-sort";
    fn cases(t: Tier) -> u64 {
        t.pick(1_200_000, 20_000_000)
    }
    fn strategy(t: Tier) -> BoxedStrategy<G> {
        mostly_acyclic(t)
    }
    fn check(c: &G, cx: &mut Ctx) -> Check {
        let g = c.build();
        let acyclic = c.order().is_some();
        let (ind, outd) = c.degrees();
        for (name, reverse, r) in [("topo_sort", false, trellis::topo_sort::topo_sort(&g)), ("topo_sort_reverse", true, trellis::topo_sort::topo_sort_reverse(&g))] {
            match r {
                Err(e) => {
                    ensure_eq!(e, Error::FoundCycle, "{}", name);
                    ensure!(!acyclic, "{} reports a cycle in a graph that has none", name);
                }
                Ok(order) => {
                    ensure!(acyclic, "{} returns an order for a graph that has a cycle", name);
                    let mut pos = vec![usize::MAX; c.n as usize];
                    for (i, &v) in order.iter().enumerate() {
                        ensure!((v as usize) < pos.len(), "{}: vertex {} does not exist", name, v);
                        ensure!(pos[v as usize] == usize::MAX, "{}: vertex {} is listed twice", name, v);
                        pos[v as usize] = i;
                    }
                    for v in 0..c.n as usize {
                        let connected = ind[v] + outd[v] > 0;
                        ensure!((pos[v] != usize::MAX) == connected, "{}: vertex {} (connected: {}) listed: {}", name, v, connected, pos[v] != usize::MAX);
                    }
                    for &(f, t) in &c.edges {
                        let ok = if reverse { pos[t as usize] < pos[f as usize] } else { pos[f as usize] < pos[t as usize] };
                        ensure!(ok, "{}: edge {} -> {} is against the order {:?}", name, f, t, order);
                    }
                }
            }
        }
        cx.label(if acyclic { "acyclic" } else { "cyclic" });
        cx.nt_if(c.edges.len() >= 4 && c.n >= 4);
        Ok(())
    }
}

// ---------------------------------------------------------------- G04

struct Layers;
impl Part for Layers {
    type Case = G;
    const NAME: &'static str = "layer-map";
    fn cases(t: Tier) -> u64 {
        t.pick(1_200_000, 20_000_000)
    }
    fn strategy(t: Tier) -> BoxedStrategy<G> {
        mostly_acyclic(t)
    }
    fn check(c: &G, cx: &mut Ctx) -> Check {
        let g = c.build();
        let order = c.order();
        match (create_layer_map(&g), &order) {
            (Err(e), None) => ensure_eq!(e, Error::FoundCycle, "create_layer_map"),
            (Err(e), Some(_)) => return Err(format!("{:?} for a graph without cycles", e)),
            (Ok(_), None) => return Err("a layer map for a graph with a cycle".into()),
            (Ok(m), Some(order)) => {
                let adj = c.adj();
                let mut exp = vec![0u32; c.n as usize];
                for &v in order {
                    exp[v as usize] = adj[v as usize].iter().map(|&t| exp[t as usize] + 1).max().unwrap_or(0);
                }
                ensure_eq!(m.v_layer, exp, "layers");
                ensure_eq!(m.num_layers, exp.iter().max().map(|&x| x as usize).unwrap_or(0) + 1, "number of layers");
                cx.nt_if(m.num_layers >= 3 && c.edges.len() >= 4);
                cx.label_if(m.num_layers >= 10, "ten-layers");
            }
        }
        cx.label(if order.is_some() { "acyclic" } else { "cyclic" });
        Ok(())
    }
}

// ---------------------------------------------------------------- G05

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ProperCase {
    g: G,
    /// extra distance of each vertex above its highest successor; empty: create_layer_map
    extra: Vec<u32>,
}
struct Proper;
impl Part for Proper {
    type Case = ProperCase;
    const NAME: &'static str = "proper-graph";
    fn cases(t: Tier) -> u64 {
        t.pick(1_000_000, 15_000_000)
    }
    fn strategy(t: Tier) -> BoxedStrategy<ProperCase> {
        // few vertices, so that the number of virtual ones stays within bounds
        let few = |n: u32, m: std::ops::Range<usize>| {
            vec((0..n, 0..n), m).prop_map(move |e| G { n, edges: e.into_iter().filter(|(a, b)| a != b).map(|(a, b)| (a.max(b), a.min(b))).collect() })
        };
        let usual = (acyclic(t), prop_oneof![1 => Just(vec![]), 2 => vec(prop_oneof![4 => Just(0u32), 3 => 1u32..4, 1 => 4u32..12], 1..12)]);
        let far = (few(5, 1..8), vec(prop_oneof![2 => 0u32..3, 1 => 250u32..260, 1 => 65_530u32..140_000], 1..4));
        let many = (few(5, 65_500..70_000), vec(0u32..2, 1..4));
        prop_oneof![5000 => usual.boxed(), 1 => far.boxed(), 1 => many.boxed()]
            .prop_map(|(g, extra)| ProperCase { g, extra })
            .boxed()
    }
    fn check(c: &ProperCase, cx: &mut Ctx) -> Check {
        let g = c.g.build();
        let adj = c.g.adj();
        let order = c.g.order().ok_or("harness: cyclic graph")?;
        let layers = if c.extra.is_empty() {
            create_layer_map(&g).map_err(|e| format!("create_layer_map: {:?}", e))?
        } else {
            let mut l = vec![0u32; c.g.n as usize];
            for (i, &v) in order.iter().enumerate() {
                let x = c.extra[i % c.extra.len()];
                l[v as usize] = adj[v as usize].iter().map(|&t| l[t as usize] + 1).max().unwrap_or(0) + x;
            }
            LayerMap { num_layers: l.iter().max().map(|&m| m as usize).unwrap_or(0) + 1, v_layer: l }
        };
        let l = &layers.v_layer;
        let p = create_proper_graph(&g, &layers);
        let mut expected: BTreeMap<(u32, u32, u32), u32> = BTreeMap::new();
        let mut virt = 0;
        for &(f, t) in &c.g.edges {
            let span = l[f as usize] - l[t as usize];
            virt += span - 1;
            *expected.entry((f, t, span)).or_insert(0) += 1;
        }
        let np = c.g.n + virt;
        ensure_eq!(p.num_verts(), np as usize, "vertices of the proper graph");
        ensure_eq!(p.num_edges(), c.g.edges.len() + virt as usize, "edges of the proper graph");
        assert_graph_is_well_formed(&p);
        ensure_eq!(p.iter_edges_flattened().count(), p.num_edges(), "edges that belong to a vertex");
        let mut seen = vec![false; np as usize];
        let mut got: BTreeMap<(u32, u32, u32), u32> = BTreeMap::new();
        for f in 0..c.g.n {
            ensure_eq!(p.edges_from(f).len(), adj[f as usize].len(), "out-degree of {} in the proper graph", f);
            for &first in p.edges_from(f) {
                let (mut v, mut span) = (first, 1);
                while v >= c.g.n {
                    ensure!(!seen[v as usize], "virtual vertex {} is on two paths", v);
                    seen[v as usize] = true;
                    let next = p.edges_from(v);
                    ensure_eq!(next.len(), 1, "out-degree of virtual vertex {}", v);
                    v = next[0];
                    span += 1;
                }
                *got.entry((f, v, span)).or_insert(0) += 1;
            }
        }
        ensure!(seen[c.g.n as usize..].iter().all(|s| *s), "a virtual vertex is on no path");
        ensure_eq!(got, expected, "paths (from, to, length) between original vertices, with their number");
        cx.label_if(virt > 0, "virtual-vertices");
        cx.label_if(!c.extra.is_empty(), "own-layer-map");
        cx.nt_if(virt >= 2 && c.g.edges.len() >= 3);
        Ok(())
    }
}

// ---------------------------------------------------------------- G06

struct Disjoint;
impl Part for Disjoint {
    type Case = G;
    const NAME: &'static str = "disjoint-subgraphs";
    fn cases(t: Tier) -> u64 {
        t.pick(400_000, 6_000_000)
    }
    fn strategy(t: Tier) -> BoxedStrategy<G> {
        prop_oneof![20_000 => graphs(t), 40_000 => blocks(t), 10_000 => chainy(t), 200 => joined(t), 4 => pieces(t, false)].boxed()
    }
    fn check(c: &G, cx: &mut Ctx) -> Check {
        let d = trellis::disjoint::find_disjoint_subgraphs(&c.build());
        // reference: flood fill over undirected edges
        let mut und = vec![Vec::new(); c.n as usize];
        for &(f, t) in &c.edges {
            und[f as usize].push(t);
            und[t as usize].push(f);
        }
        let mut comp = vec![usize::MAX; c.n as usize];
        let mut exp: Vec<Vec<u32>> = Vec::new();
        for v in 0..c.n {
            if comp[v as usize] != usize::MAX || und[v as usize].is_empty() {
                continue;
            }
            let id = exp.len();
            let mut members = vec![v];
            comp[v as usize] = id;
            let mut i = 0;
            while i < members.len() {
                for &w in &und[members[i] as usize] {
                    if comp[w as usize] == usize::MAX {
                        comp[w as usize] = id;
                        members.push(w);
                    }
                }
                i += 1;
            }
            exp.push(sorted(members));
        }
        exp.sort();
        let mut got: Vec<Vec<u32>> = d.subgraphs.iter().map(|s| sorted(s.to_vec())).collect();
        got.sort();
        ensure_eq!(got, exp, "subgraphs");
        ensure_eq!(d.subgraphs.num_values(), exp.iter().map(|e| e.len()).sum::<usize>(), "number of vertices in subgraphs");
        cx.label_if(und.iter().any(|u| u.is_empty()), "isolated-vertices");
        cx.nt_if(exp.len() >= 2 && exp.iter().any(|e| e.len() >= 4));
        Ok(())
    }
}

// ---------------------------------------------------------------- G07

struct Chains;
impl Part for Chains {
    type Case = G;
    const NAME: &'static str = "chains";
    fn cases(t: Tier) -> u64 {
        t.pick(1_500_000, 20_000_000)
    }
    fn strategy(t: Tier) -> BoxedStrategy<G> {
        prop_oneof![2 => graphs(t), 3 => chainy(t), 1 => star(t)].boxed()
    }
    fn check(c: &G, cx: &mut Ctx) -> Check {
        let r = trellis::find_chains::find_chains(&c.build());
        let adj = c.adj();
        let (ind, outd) = c.degrees();
        let inner = |v: u32| ind[v as usize] == 1 && outd[v as usize] == 1 && adj[v as usize][0] != v;
        let mut exp: Vec<Vec<u32>> = Vec::new();
        for f in (0..c.n).filter(|&f| !inner(f)) {
            for &t in adj[f as usize].iter().filter(|&&t| inner(t)) {
                let mut ch = vec![f];
                let mut v = t;
                while inner(v) {
                    ch.push(v);
                    v = adj[v as usize][0];
                }
                ch.push(v);
                exp.push(ch);
            }
        }
        exp.sort();
        let mut got: Vec<Vec<u32>> = r.iter().map(|s| s.to_vec()).collect();
        got.sort();
        ensure_eq!(got, exp, "chains");
        ensure_eq!(r.num_values(), exp.iter().map(|e| e.len()).sum::<usize>(), "number of vertices in chains");
        cx.label_if(exp.iter().any(|e| e.first() == e.last()), "closed-chain");
        cx.label_if(ind.iter().any(|&d| d >= 16), "degree-over-15");
        cx.nt_if(exp.len() >= 2 && exp.iter().any(|e| e.len() >= 4));
        Ok(())
    }
}

// ---------------------------------------------------------------- G08

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct DegCase {
    n: u32,
    /// (vertex, number of occurrences)
    occ: Vec<(u32, u32)>,
    start: Vec<(u32, u16)>,
    seed: u64,
}
struct Degrees;
impl Part for Degrees {
    type Case = DegCase;
    const NAME: &'static str = "degrees";
    fn cases(t: Tier) -> u64 {
        t.pick(600_000, 8_000_000)
    }
    fn strategy(_: Tier) -> BoxedStrategy<DegCase> {
        prop_oneof![3000 => 1u32..12, 1 => 65_530u32..70_000]
            .prop_flat_map(|n| {
                (
                    Just(n),
                    prop_oneof![60 => vec((0..n, 0u32..6), 0..12), 1 => vec((0..n, prop_oneof![2 => 0u32..10, 1 => 65530u32..65545]), 1..4)],
                    vec((0..n, prop_oneof![1 => 0u16..10, 2 => 65530u16..=65535]), 0..6),
                    seed(),
                )
            })
            .prop_map(|(n, occ, start, seed)| DegCase { n, occ, start, seed })
            .boxed()
    }
    fn check(c: &DegCase, cx: &mut Ctx) -> Check {
        let mut e: Vec<u32> = c.occ.iter().flat_map(|&(v, k)| std::iter::repeat(v).take(k as usize)).collect();
        let p = perm(e.len() as u32, c.seed);
        e = p.iter().map(|&i| e[i as usize]).collect();
        let mut count = vec![0u64; c.n as usize];
        for &v in &e {
            count[v as usize] += 1;
        }
        let exp: Vec<u16> = count.iter().map(|&k| k.min(65535) as u16).collect();
        ensure_eq!(trellis::find_degree(&e, c.n), exp, "find_degree");
        let mut d = vec![0u16; c.n as usize];
        for &(v, s) in &c.start {
            d[v as usize] = s;
        }
        let total: Vec<u64> = d.iter().zip(&count).map(|(&a, &b)| a as u64 + b).collect();
        let sat = trellis::add_degree(&e, &mut d);
        ensure_eq!(d, total.iter().map(|&k| k.min(65535) as u16).collect::<Vec<_>>(), "degrees after add_degree");
        ensure_eq!(sat, total.iter().any(|&k| k > 65535), "add_degree reports saturation");
        ensure_eq!(trellis::find_referenced_edges(&e, c.n as usize), count.iter().map(|&k| k > 0).collect::<Vec<_>>(), "find_referenced_edges");
        cx.label_if(sat, "saturated");
        cx.nt_if(e.len() >= 3 && total.iter().any(|&k| k >= 65535));
        Ok(())
    }
}

struct SourcesSinks;
impl Part for SourcesSinks {
    type Case = G;
    const NAME: &'static str = "sources-and-sinks";
    fn cases(t: Tier) -> u64 {
        t.pick(800_000, 10_000_000)
    }
    fn strategy(t: Tier) -> BoxedStrategy<G> {
        graphs(t)
    }
    fn check(c: &G, cx: &mut Ctx) -> Check {
        let g = c.build();
        let (ind, outd) = c.degrees();
        ensure_eq!(trellis::find_sources(g.edges()), ind.iter().map(|&d| d == 0).collect::<Vec<_>>(), "find_sources");
        ensure_eq!(trellis::find_sinks(g.edges()), outd.iter().map(|&d| d == 0).collect::<Vec<_>>(), "find_sinks");
        ensure_eq!(trellis::find_degree(g.edges().all_values(), c.n), ind.iter().map(|&d| d.min(65535) as u16).collect::<Vec<_>>(), "in-degrees");
        cx.nt_if(c.edges.len() >= 3 && ind.contains(&0) && outd.contains(&0));
        Ok(())
    }
}

// ---------------------------------------------------------------- G09

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct DfsCase {
    g: G,
    start: u32,
    limit: u16,
}
struct Dfs;
impl Part for Dfs {
    type Case = DfsCase;
    const NAME: &'static str = "depth-first";
    fn cases(t: Tier) -> u64 {
        t.pick(1_500_000, 20_000_000)
    }
    fn strategy(t: Tier) -> BoxedStrategy<DfsCase> {
        (prop_oneof![3 => acyclic(t), 2 => graphs(t)], any::<u32>(), prop_oneof![4 => 0u16..200, 1 => 200u16..3000]).prop_map(|(g, start, limit)| DfsCase { g, start, limit }).boxed()
    }
    fn check(c: &DfsCase, cx: &mut Ctx) -> Check {
        if c.g.n == 0 {
            return Ok(());
        }
        let start = c.start % c.g.n;
        let g = c.g.build();
        let adj = c.g.adj();
        // Reference: the stack holds what is still to be listed, in order.
        let mut todo: Vec<u32> = adj[start as usize].iter().rev().copied().collect();
        let mut exp = Vec::new();
        while exp.len() < c.limit as usize {
            match todo.pop() {
                None => break,
                Some(v) => {
                    exp.push(v);
                    todo.extend(adj[v as usize].iter().rev());
                }
            }
        }
        let ended = todo.is_empty();
        let mut it = trellis::traverse_depth_first_preorder(g.edges(), start);
        for (i, e) in exp.iter().enumerate() {
            ensure_eq!(it.next(), Some(*e), "item {} of the traversal from {}", i, start);
        }
        if ended {
            ensure_eq!(it.next(), None, "end of the traversal from {} after {} items", start, exp.len());
            ensure_eq!(it.next(), None, "after the end of the traversal");
        }
        let h = mix(c.limit as u64, c.start as u64);
        let mut all = trellis::traverse_depth_first_preorder(g.edges(), start);
        if ended {
            drive_all("the traversal", all, |v| v, &exp, h)?;
        } else {
            drive_all("the first items of the traversal", all.by_ref().take(exp.len()), |v| v, &exp, h)?;
        }
        cx.label(if ended { "complete" } else { "prefix" });
        cx.nt_if(exp.len() >= 5);
        Ok(())
    }
}

pub fn props() -> Vec<PropDef> {
    const A: &[&str] = &["graphs are well formed: every edge leads to an existing vertex, every edge value belongs to a vertex"];
    vec![
        PropDef {
            id: "G01",
            rule: "random graphs (arbitrary, acyclic, near-acyclic, paths between hubs, blocks; with self-loops, repeated edges and isolated vertices) against a direct list of predecessors; non-trivial: 3 or more edges and a vertex with two or more in-edges",
            assumptions: A,
            parts: vec![part::<Transpose>()],
        },
        PropDef {
            id: "G02",
            rule: "random GraphBuilder and push_to/finish_from sequences against an edge list; non-trivial: 3 or more edges, or an edge replaced by one out of bounds",
            assumptions: &[],
            parts: vec![part::<BuilderP>(), part::<WellFormed>()],
        },
        PropDef {
            id: "G03",
            rule: "random graphs, two thirds of them acyclic, relabelled at random; cycles decided by Kahn's algorithm, the order checked edge by edge; non-trivial: 4 or more vertices and edges",
            assumptions: A,
            parts: vec![part::<Topo>()],
        },
        PropDef {
            id: "G04",
            rule: "random graphs, two thirds of them acyclic, against longest paths computed from an independent topological order; non-trivial: acyclic with three or more layers and 4 or more edges",
            assumptions: A,
            parts: vec![part::<Layers>()],
        },
        PropDef {
            id: "G05",
            rule: "random acyclic graphs with layer maps from create_layer_map or any layer map whose edges point down; the multiset of (from, to, length) paths is compared; non-trivial: two or more virtual vertices and 3 or more edges",
            assumptions: &["every edge points from a higher to a lower layer", "graphs are well formed"],
            parts: vec![part::<Proper>()],
        },
        PropDef {
            id: "G06",
            rule: "random graphs, mostly of several blocks with edges in random order, against a flood fill over undirected edges, compared as sets; non-trivial: two or more subgraphs, one with 4 or more vertices",
            assumptions: A,
            parts: vec![part::<Disjoint>()],
        },
        PropDef {
            id: "G07",
            rule: "random graphs, mostly of paths between hubs and rings, against a walk from every vertex that is not inside a chain, compared as multisets; non-trivial: two or more chains, one with two or more inner vertices",
            assumptions: A,
            parts: vec![part::<Chains>()],
        },
        PropDef {
            id: "G08",
            rule: "random vertex lists with counts around 65535 and random start degrees, against 64-bit counts, and random graphs for sources and sinks; non-trivial: a degree that reaches 65535 (degrees), a source and a sink and 3 or more edges (graphs)",
            assumptions: A,
            parts: vec![part::<Degrees>(), part::<SourcesSinks>()],
        },
        PropDef {
            id: "G09",
            rule: "random acyclic and cyclic graphs, the first items of the traversal against a reference that lists each vertex and then its successors; non-trivial: five or more items",
            assumptions: A,
            parts: vec![part::<Dfs>()],
        },
    ]
}
