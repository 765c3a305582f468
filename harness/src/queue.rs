//! The priority queue and the shortest path search over weighted edges.
use crate::core::*;
use crate::graph::perm;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::Cell;
use std::cmp::Ordering;
use std::collections::BTreeMap;
use trellis::ortho::shortest_path::find_shortest_path;
use trellis::priority_queue::PQ;

/// Ordered by `p` alone: items of equal priority can be told apart.
struct Item {
    p: i64,
    tag: u32,
    _own: Box<u32>,
}
impl std::fmt::Debug for Item {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "<{}/{}>", self.p, self.tag)
    }
}
impl PartialEq for Item {
    fn eq(&self, o: &Item) -> bool {
        self.p == o.p
    }
}
impl Eq for Item {}
impl PartialOrd for Item {
    fn partial_cmp(&self, o: &Item) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Item {
    fn cmp(&self, o: &Item) -> Ordering {
        self.p.cmp(&o.p)
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum QOp {
    Insert(i64),
    Remove,
    RemoveAll,
    Clear,
    /// how many, in what order (rising, falling, random, few distinct), numbers
    InsertMany(u16, u8, u64),
    RemoveMany(u16),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct QCase {
    cap: Option<u8>,
    ops: Vec<QOp>,
}

struct Queue;
impl Part for Queue {
    type Case = QCase;
    const NAME: &'static str = "history";
    fn cases(t: Tier) -> u64 {
        t.pick(1_000_000, 15_000_000)
    }
    fn strategy(t: Tier) -> BoxedStrategy<QCase> {
        let prio = |k: i64| prop_oneof![20 => 0..k, 1 => Just(i64::MIN), 1 => Just(i64::MAX)];
        let ops = move |k: i64, n: usize, rm: u32| {
            vec(
                prop_oneof![60 => prio(k).prop_map(QOp::Insert), rm => Just(QOp::Remove), 1 => Just(QOp::RemoveAll), 1 => Just(QOp::Clear)],
                0..n,
            )
        };
        let n = t.pick(150, 500);
        let one = || {
            prop_oneof![
                3 => (1u16..4000, 0u8..4, any::<u64>()).prop_map(|(a, b, c)| QOp::InsertMany(a, b, c)),
                2 => (1u16..4000).prop_map(QOp::RemoveMany),
                1 => (0i64..4000).prop_map(QOp::Insert),
                1 => Just(QOp::Remove),
            ]
        };
        let many = vec(one(), 2..10);
        let huge = ((14_000u16..24_000, 0u8..4, any::<u64>()).prop_map(|(a, b, c)| QOp::InsertMany(a, b, c)), vec(one(), 0..4), any::<bool>())
            .prop_map(|(first, more, all)| {
                let mut ops = vec![first];
                ops.extend(more);
                ops.push(if all { QOp::RemoveAll } else { QOp::RemoveMany(3000) });
                ops
            });
        (
            proptest::option::of(0u8..50),
            prop_oneof![1 => huge, 20 => many, 40_000 => prop_oneof![ops(4, 16, 30), ops(10, 40, 40), ops(1000, 40, 25), ops(50, n, 50), ops(100_000, n, 15)]],
        )
            .prop_map(|(cap, ops)| QCase { cap, ops })
            .boxed()
    }
    fn check(c: &QCase, cx: &mut Ctx) -> Check {
        let mut q: PQ<Item> = match c.cap {
            None => PQ::new(),
            Some(k) => PQ::with_capacity(k as usize),
        };
        // priority -> tags
        let mut m: BTreeMap<i64, Vec<u32>> = BTreeMap::new();
        let mut held = 0;
        let mut max_held = 0;
        let mut removed = 0;
        fn remove(q: &mut PQ<Item>, m: &mut BTreeMap<i64, Vec<u32>>) -> Check {
            let best = m.keys().next_back().copied();
            match (q.remove(), best) {
                (None, None) => Ok(()),
                (None, Some(p)) => Err(format!("nothing removed while an item of priority {} is in the queue", p)),
                (Some(i), None) => Err(format!("an item of priority {} removed from an empty queue", i.p)),
                (Some(i), Some(p)) => {
                    ensure_eq!(i.p, p, "priority of the removed item");
                    let tags = m.get_mut(&p).unwrap();
                    let at = tags.iter().position(|t| *t == i.tag).ok_or_else(|| format!("the removed item (priority {}, number {}) is not in the queue", i.p, i.tag))?;
                    ensure_eq!(*i._own, i.tag, "contents of the removed item");
                    tags.swap_remove(at);
                    if tags.is_empty() {
                        m.remove(&p);
                    }
                    Ok(())
                }
            }
        }
        let mut tag = 0u32;
        let mut insert = |q: &mut PQ<Item>, m: &mut BTreeMap<i64, Vec<u32>>, p: i64| {
            tag += 1;
            q.insert(Item { p, tag, _own: Box::new(tag) });
            m.entry(p).or_default().push(tag);
        };
        for (n, op) in c.ops.iter().enumerate() {
            match op {
                QOp::Insert(p) => {
                    insert(&mut q, &mut m, *p);
                    held += 1;
                }
                QOp::InsertMany(k, style, seed) => {
                    let mut x = *seed;
                    for i in 0..*k as i64 {
                        x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                        insert(&mut q, &mut m, match style {
                            0 => i,
                            1 => *k as i64 - i,
                            2 => (x >> 33) as i64,
                            _ => (x >> 33) as i64 % 7,
                        });
                    }
                    held += *k as usize;
                }
                QOp::RemoveMany(k) => {
                    let k = held.min(*k as usize);
                    for _ in 0..k {
                        remove(&mut q, &mut m).map_err(|e| format!("operation {}: {}", n, e))?;
                    }
                    removed += k;
                    held -= k;
                }
                QOp::Remove => {
                    remove(&mut q, &mut m).map_err(|e| format!("operation {}: {}", n, e))?;
                    removed += (held > 0) as usize;
                    held -= (held > 0) as usize;
                }
                QOp::RemoveAll => {
                    for _ in 0..=held {
                        remove(&mut q, &mut m).map_err(|e| format!("operation {}: {}", n, e))?;
                    }
                    removed += held;
                    held = 0;
                }
                QOp::Clear => {
                    q.clear();
                    m.clear();
                    held = 0;
                }
            }
            max_held = max_held.max(held);
        }
        if held <= 200 {
            let text = format!("{:?}", q);
            let mut shown: Vec<&str> = text.split(|c: char| c != '<' && c != '>' && c != '/' && c != '-' && !c.is_ascii_digit()).filter(|w| w.starts_with('<')).collect();
            let mut want: Vec<String> = m.iter().flat_map(|(p, tags)| tags.iter().map(move |t| format!("<{}/{}>", p, t))).collect();
            shown.sort();
            want.sort();
            ensure_eq!(shown, want, "the queue printed as {:?}", text);
        }
        removed += held;
        for _ in 0..=held {
            remove(&mut q, &mut m).map_err(|e| format!("at the end: {}", e))?;
        }
        cx.label_if(max_held >= 16, "sixteen-items");
        cx.label_if(max_held >= 1000, "a thousand items");
        cx.nt_if(max_held >= 4 && removed >= 4);
        Ok(())
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SCase {
    ids: Vec<i32>,
    edges: Vec<(u32, u32, i32)>,
    from: u32,
    to: u32,
}

struct Shortest;
impl Part for Shortest {
    type Case = SCase;
    const NAME: &'static str = "shortest-path";
    fn cases(t: Tier) -> u64 {
        t.pick(2_000_000, 25_000_000)
    }
    fn strategy(t: Tier) -> BoxedStrategy<SCase> {
        let big = t.pick(40u16, 120);
        let ids = |n: u16| {
            prop_oneof![
                3 => any::<u64>().prop_map(move |s| perm(n as u32, s).into_iter().map(|x| x as i32).collect::<Vec<i32>>()),
                1 => (any::<i32>(), any::<u64>()).prop_map(move |(b, s)| perm(n as u32, s).into_iter().map(|x| b.wrapping_add((x as i32).wrapping_mul(104_729))).collect()),
                1 => any::<u64>().prop_map(move |s| perm(n as u32, s).into_iter().map(|x| x as i32 - n as i32 / 2).collect()),
                1 => any::<u64>().prop_map(move |s| perm(n as u32, s).into_iter().map(|x| if x % 2 == 0 { i32::MAX - x as i32 } else { i32::MIN + x as i32 }).collect()),
            ]
        };
        // long paths and wide stars
        let long = (prop_oneof![10 => 250u32..3000, 1 => 66_000u32..72_000], 0u8..3, 0u8..3, any::<u64>())
            .prop_map(|(n, kind, heavy, mut x)| {
                let ids = perm(n, x % 7).into_iter().map(|v| v as i32 - (x % 3) as i32 * 1000).collect();
                let mut next = || {
                    x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                    (x >> 33) as u32
                };
                let mut edges = Vec::new();
                for i in 0..n - 1 {
                    let w = match heavy {
                        0 => next() as i32 % 5,
                        1 => next() as i32 % 1000,
                        _ => i32::MAX - next() as i32 % 1000,
                    };
                    match kind {
                        0 => edges.push((i, i + 1, w)),
                        1 => edges.extend([(0, i + 1, w), (i, n - 1, next() as i32 % 1000)]),
                        _ => edges.extend([(0, i + 1, (n - i) as i32), (i, i + 1, w % 3)]),
                    }
                    if next() % 50 == 0 {
                        edges.push((i, next() % n, i32::MAX - next() as i32 % 1000));
                    }
                }
                let at = perm(edges.len() as u32, x % 2 * x);
                let edges = at.into_iter().map(|k| edges[k as usize]).collect();
                SCase { ids, edges, from: 0, to: n - 1 }
            })
            .boxed();
        let usual = prop_oneof![2000 => (2u16..7, 0usize..16), 2000 => (4u16..14, 0usize..50), 500 => (10u16..big, 0usize..160), 1 => (150u16..3000, 200usize..8000)]
            .prop_flat_map(move |(n, m)| {
                let max = i32::MAX / (n as i32 + 1);
                let w = prop_oneof![4 => 0i32..6, 3 => 0i32..100, 1 => Just(0), 1 => 0..max];
                // also too heavy for a path of them to be counted in an i32
                let w = prop_oneof![8 => w, 1 => 0..=i32::MAX, 1 => i32::MAX - 9..=i32::MAX];
                let edge = prop_oneof![
                    3 => (0..n, 0..n, w.clone()),
                    2 => (0..n, 1u16..3, w).prop_map(move |(a, d, w)| (a, (a + d) % n, w)),
                ];
                (ids(n), prop_oneof![1 => vec(edge.clone(), 0..=m), 2 => vec(edge, n as usize..=m.max(n as usize) * 2)], 0..n, 0..n)
            })
            .prop_map(|(ids, edges, from, to)| SCase { ids, edges: edges.into_iter().map(|(a, b, w)| (a as u32, b as u32, w)).collect(), from: from as u32, to: to as u32 })
            .boxed();
        prop_oneof![20_000 => usual, 1 => long].boxed()
    }
    fn check(c: &SCase, cx: &mut Ctx) -> Check {
        let n = c.ids.len();
        let index: BTreeMap<i32, usize> = c.ids.iter().enumerate().map(|(i, v)| (*v, i)).collect();
        ensure_eq!(index.len(), n, "harness: identifiers");
        let mut adj: Vec<Vec<(i32, i32)>> = vec![Vec::new(); n];
        for &(a, b, w) in &c.edges {
            adj[a as usize].push((c.ids[b as usize], w));
        }
        cx.label_if(n >= 150, "large");
        let mut dist = vec![None::<i64>; n];
        dist[c.from as usize] = Some(0);
        if n < 150 {
            // Bellman-Ford
            for _ in 0..n {
                let mut changed = false;
                for &(a, b, w) in &c.edges {
                    if let Some(d) = dist[a as usize] {
                        let nd = d + w as i64;
                        if dist[b as usize].map(|x| nd < x).unwrap_or(true) {
                            dist[b as usize] = Some(nd);
                            changed = true;
                        }
                    }
                }
                if !changed {
                    break;
                }
            }
        } else {
            // Dijkstra
            let mut heap = std::collections::BinaryHeap::from([(std::cmp::Reverse(0i64), c.from)]);
            while let Some((std::cmp::Reverse(d), v)) = heap.pop() {
                if dist[v as usize] != Some(d) {
                    continue;
                }
                for (id, w) in &adj[v as usize] {
                    let t = index[id];
                    let nd = d + *w as i64;
                    if dist[t].map(|x| nd < x).unwrap_or(true) {
                        dist[t] = Some(nd);
                        heap.push((std::cmp::Reverse(nd), t as u32));
                    }
                }
            }
        }
        let calls = Cell::new(0u64);
        let bad = Cell::new(None::<i32>);
        let (from, to) = (c.ids[c.from as usize], c.ids[c.to as usize]);
        let r = find_shortest_path(
            |v| {
                calls.set(calls.get() + 1);
                // An entry leads to new ones only when its vertex is reached at its final
                // distance, so there are no more entries than edges, and the first.
                if calls.get() > c.edges.len() as u64 + 1 {
                    panic!("vertices expanded {} times in a graph of {} vertices and {} edges", calls.get(), n, c.edges.len());
                }
                let l = match index.get(&v) {
                    Some(&i) => &adj[i][..],
                    None => {
                        bad.set(Some(v));
                        &[][..]
                    }
                };
                l.iter().copied()
            },
            from,
            to,
        );
        ensure_eq!(bad.get(), None, "a vertex that does not exist was asked for");
        match (r, dist[c.to as usize]) {
            (None, None) => cx.label("unreachable"),
            (None, Some(d)) => return Err(format!("no path found; the shortest one has length {}", d)),
            (Some(p), None) => return Err(format!("path {:?} to a vertex that cannot be reached", p)),
            (Some(mut p), Some(d)) => {
                ensure!(!p.is_empty(), "empty path");
                let shown = p.clone();
                p.reverse();
                ensure_eq!(p[0], from, "last vertex of the path {:?}", shown);
                ensure_eq!(*p.last().unwrap(), to, "first vertex of the path {:?}", shown);
                let mut len = 0i64;
                for w in p.windows(2) {
                    let i = *index.get(&w[0]).ok_or_else(|| format!("path {:?}: no vertex {}", shown, w[0]))?;
                    let e = adj[i].iter().filter(|e| e.0 == w[1]).map(|e| e.1).min();
                    len += e.ok_or_else(|| format!("path {:?}: no edge {} -> {}", shown, w[0], w[1]))? as i64;
                }
                ensure_eq!(len, d, "length of the path {:?}", shown);
                cx.label("reachable");
                cx.label_if(d > i32::MAX as i64, "heavier than an i32 holds");
                cx.nt_if(p.len() >= 4 && c.edges.len() > p.len());
            }
        }
        Ok(())
    }
}

pub fn props() -> Vec<PropDef> {
    vec![
        PropDef {
            id: "Q01",
            rule: "random insert/remove/clear histories over items that are ordered by priority alone and tagged, against a multiset; the queue is emptied at the end; non-trivial: four or more items held at once and four or more removed",
            assumptions: &["the order of the items is a total order"],
            parts: vec![part::<Queue>()],
        },
        PropDef {
            id: "S01",
            rule: "random directed multigraphs with cycles, zero weights, self-loops and arbitrary identifiers, against Bellman-Ford; non-trivial: a path of four or more vertices in a graph with more edges than that",
            assumptions: &["no weight is negative", "finitely many vertices can be reached"],
            parts: vec![part::<Shortest>()],
        },
    ]
}
