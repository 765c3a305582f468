//! The path planner: shortest paths, visibility, polygons, splines' inputs.
use crate::core::*;
use crate::geo::{self, *};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::Cell;
use trellis::pathplan::array2::allocArray;
use trellis::pathplan::cvt::Pobsopen;
use trellis::pathplan::shortest::{Pshortestpath, ShortestPathError};
use trellis::pathplan::shortestpth::{makePath, shortestPath, shortestPathGeneric};
use trellis::pathplan::vis::vconfig_t;
use trellis::pathplan::visibility::{area2 as t_area2, directVis, inBetween, polyhit, ptVis, visibility, wind};
use trellis::pathplan::{in_poly::in_poly, POLYID_NONE, POLYID_UNKNOWN};
use trellis::polyline::Ppoly_t;
use trellis::vec2::Vec2;

/// Shortest distances from `root`, weights in a symmetric matrix, 0 for no edge.
fn dijkstra(w: &[Vec<f64>], root: usize) -> Vec<f64> {
    let n = w.len();
    let mut d = vec![f64::INFINITY; n];
    let mut done = vec![false; n];
    d[root] = 0.0;
    loop {
        let k = match (0..n).filter(|&i| !done[i] && d[i].is_finite()).min_by(|&a, &b| d[a].partial_cmp(&d[b]).unwrap()) {
            None => return d,
            Some(k) => k,
        };
        done[k] = true;
        for t in 0..n {
            if w[k][t] != 0.0 && d[k] + w[k][t] < d[t] {
                d[t] = d[k] + w[k][t];
            }
        }
    }
}

fn close(a: f64, b: f64) -> bool {
    (a - b).abs() <= 1e-9 * a.abs().max(b.abs()) + 1e-100
}

/// Checks the chain target, dad[target], ..., root.
fn check_dads(dad: &[i32], root: usize, target: usize, w: &[Vec<f64>], shortest: f64) -> Result<Vec<usize>, String> {
    ensure!(dad.len() >= w.len(), "{} entries in the result for {} vertices", dad.len(), w.len());
    let mut path = vec![target];
    let mut len = 0.0;
    let mut v = target;
    while v != root {
        let d = dad[v];
        ensure!(d >= 0 && (d as usize) < w.len(), "dad[{}] is {}; the chain from {} so far: {:?}", v, d, target, path);
        let d = d as usize;
        ensure!(w[v][d] != 0.0, "the path uses {} - {}, which is no edge", v, d);
        len += w[v][d];
        path.push(d);
        ensure!(path.len() <= w.len(), "the chain from {} does not reach {}: {:?}", target, root, path);
        v = d;
    }
    ensure_eq!(dad[root], -1, "dad of the root {}", root);
    ensure!(close(len, shortest), "the path {:?} has length {}, the shortest one {}", path, len, shortest);
    Ok(path)
}

/// The chain of a target that cannot be reached ends somewhere else.
fn check_cut_off(dad: &[i32], root: usize, target: usize, w: &[Vec<f64>]) -> Check {
    ensure!(dad.len() >= w.len(), "{} entries in the result for {} vertices", dad.len(), w.len());
    let (mut v, mut steps) = (target, 0);
    while dad[v] != -1 {
        let d = dad[v];
        ensure!(d >= 0 && (d as usize) < w.len() && w[v][d as usize] != 0.0, "dad[{}] is {}, where no edge leads", v, d);
        v = d as usize;
        steps += 1;
        ensure!(steps <= w.len(), "the chain from {} does not end", target);
    }
    ensure!(v != root, "the chain from {}, which cannot be reached, ends at the root", target);
    Ok(())
}

// ---------------------------------------------------------------- P01

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct MatrixCase {
    n: usize,
    /// (i, j, weight)
    edges: Vec<(usize, usize, u32)>,
    scale: u8,
    garbage: Vec<i16>,
    root: usize,
    target: usize,
}

struct Matrix;
impl Part for Matrix {
    type Case = MatrixCase;
    const NAME: &'static str = "matrix";
    fn cases(t: Tier) -> u64 {
        t.pick(1_500_000, 20_000_000)
    }
    fn strategy(t: Tier) -> BoxedStrategy<MatrixCase> {
        let big = t.pick(24usize, 60);
        prop_oneof![3000 => 1usize..6, 4000 => 4usize..12, 1000 => 10usize..big, 2 => 60usize..250, 1 => 250usize..1100]
            .prop_flat_map(|n| {
                let w = prop_oneof![4 => 1u32..6, 4 => 1u32..200, 1 => 1u32..1_000_000];
                let near = (0..n, 1..3usize, w.clone()).prop_map(move |(a, d, w)| (a, (a + d) % n, w));
                (Just(n), vec(prop_oneof![2 => (0..n, 0..n, w).boxed(), 3 => near.boxed()], n..=n * 3), 0u8..8, vec(any::<i16>(), 1..8), 0..n, 0..n)
            })
            .prop_map(|(n, edges, scale, garbage, root, target)| MatrixCase { n, edges, scale, garbage, root, target })
            .boxed()
    }
    fn check(c: &MatrixCase, cx: &mut Ctx) -> Check {
        let unit = [1.0, 0.25, 0.0009765625, 37.5, 1024.0, 68719476736.0, 2f64.powi(-50), 1e200][c.scale as usize % 8];
        let mut w = vec![vec![0.0; c.n]; c.n];
        for &(i, j, x) in &c.edges {
            w[i][j] = x as f64 * unit;
            w[j][i] = w[i][j];
        }
        let all = dijkstra(&w, c.root);
        let dist = all[c.target];
        // The upper right triangle is not part of the input.
        let mut a = allocArray::<f64>(c.n, 2);
        for i in 0..c.n {
            for j in 0..c.n {
                a[(i, j)] = if j <= i { w[i][j] } else { c.garbage[(i * 5 + j) % c.garbage.len()] as f64 };
            }
        }
        let one = shortestPath(c.root as i32, c.target as i32, c.n, &a);
        let bad = Cell::new(None);
        let dad = shortestPathGeneric(c.root as i32, c.target as i32, c.n, |i, j| {
            if j > i || i >= c.n {
                bad.set(Some((i, j)));
            }
            w[i.min(c.n - 1)][j.min(c.n - 1)]
        });
        ensure_eq!(bad.get(), None, "shortestPathGeneric asks for an entry that is not in the lower triangle");
        let mut longest = 0;
        for (name, dad) in [("shortestPath", one), ("shortestPathGeneric", dad)] {
            // The vertices nearer than the target are settled, too.
            for t in 0..c.n {
                if t == c.target || all[t] < dist * (1.0 - 1e-9) {
                    if all[t].is_finite() {
                        longest = check_dads(&dad, c.root, t, &w, all[t]).map_err(|e| format!("{}: {}", name, e))?.len().max(longest);
                    } else {
                        check_cut_off(&dad, c.root, t, &w).map_err(|e| format!("{}: {}", name, e))?;
                    }
                }
            }
        }
        cx.label_if(!dist.is_finite(), "unreachable");
        cx.label_if(dist.is_finite() && dist > 2147483647.0, "longer than 2^31");
        cx.nt_if(dist.is_finite() && longest >= 4 && c.edges.len() > longest);
        Ok(())
    }
}

// ---------------------------------------------------------------- obstacles

/// Obstacles that do not touch each other, in clockwise order.
fn obstacles(size: i64, max: usize, corners: usize, convex: bool, degenerate: bool) -> BoxedStrategy<Vec<Vec<Pt>>> {
    let local = (size / 3).max(5);
    let shape = move || {
        let p = polygon(local, corners);
        let p = if convex { p.prop_map(hull).boxed() } else { p };
        if degenerate {
            prop_oneof![6 => p, 1 => Just(vec![(0, 0)]), 1 => (0..local, 1..local).prop_map(|d| vec![(0, 0), d])].boxed()
        } else {
            p
        }
    };
    vec((shape(), 0..size - local / 2, 0..size - local / 2, 0usize..8), 0..=max)
        .prop_map(|cands| {
            let mut kept: Vec<Vec<Pt>> = Vec::new();
            for (p, x, y, by) in cands {
                let p: Vec<Pt> = p.into_iter().map(|q| (q.0 + x, q.1 + y)).collect();
                if kept.iter().all(|k| disjoint(k, &p)) {
                    kept.push(rotate(if p.len() >= 3 { cw(p) } else { p }, by));
                }
            }
            kept
        })
        .boxed()
}

/// One small obstacle in each cell of a grid: dozens of obstacles, more than a hundred corners.
fn many_obstacles() -> BoxedStrategy<Vec<Vec<Pt>>> {
    grid_of_obstacles(2..7, 7)
}
/// Hundreds of obstacles of one or two corners.
fn specks() -> BoxedStrategy<Vec<Vec<Pt>>> {
    (15i64..20, vec((0i64..5, 0i64..5, 0i64..5, 0i64..5, any::<bool>()), 230..330))
        .prop_map(|(w, ps)| {
            ps.into_iter()
                .enumerate()
                .map(|(i, (x, y, u, v, one))| {
                    let o = (i as i64 % w * 7, i as i64 / w * 7);
                    let (p, q) = ((o.0 + x, o.1 + y), (o.0 + u, o.1 + v));
                    if one || p == q { vec![p] } else { vec![p, q] }
                })
                .collect()
        })
        .boxed()
}
fn grid_of_obstacles(side: std::ops::Range<usize>, corners: usize) -> BoxedStrategy<Vec<Vec<Pt>>> {
    (side.clone(), side, 20i64..60)
        .prop_flat_map(move |(w, h, cell)| (Just((w, cell)), vec((polygon(cell - 4, corners), 0i64..4, 0i64..4, 0usize..8, 0u8..5), w * h)))
        .prop_map(|((w, cell), ps)| {
            let fit = |p: &Vec<Pt>| p.iter().all(|q| q.0 >= 0 && q.1 >= 0 && q.0 < cell - 4 && q.1 < cell - 4);
            ps.into_iter()
                .enumerate()
                .filter(|(_, (p, _, _, _, k))| fit(p) && *k > 0)
                .map(|(i, (p, x, y, by, _))| {
                    let o = ((i % w) as i64 * cell + x, (i / w) as i64 * cell + y);
                    rotate(cw(p.into_iter().map(|q| (q.0 + o.0, q.1 + o.1)).collect()), by)
                })
                .collect()
        })
        .boxed()
}

fn edges_of(p: &[Pt]) -> impl Iterator<Item = (Pt, Pt)> + '_ {
    let n = p.len();
    (0..n).map(move |i| (p[i], p[(i + 1) % n]))
}

fn disjoint(a: &[Pt], b: &[Pt]) -> bool {
    for (p, q) in edges_of(a) {
        for (r, s) in edges_of(b) {
            if touch(p, q, r, s) {
                return false;
            }
        }
    }
    (a.len() < 3 || side(a, b[0]) == Side::Out) && (b.len() < 3 || side(b, a[0]) == Side::Out)
}

/// Does an obstacle stop a from seeing b? Obstacles in `skip` are as if absent.
fn blocked(obs: &[Vec<Pt>], skip: &[usize], a: Pt, b: Pt) -> bool {
    for (i, o) in obs.iter().enumerate() {
        if skip.contains(&i) {
            continue;
        }
        for (p, q) in edges_of(o) {
            if on_open(a, b, p) || proper(a, b, p, q) {
                return true;
            }
        }
        if o.len() >= 3 && a != b {
            let o2: Vec<Pt> = o.iter().map(|p| (p.0 * 2, p.1 * 2)).collect();
            if side(&o2, (a.0 + b.0, a.1 + b.1)) == Side::In {
                return true;
            }
        }
    }
    false
}

/// The expected visibility matrix.
fn vis_matrix(obs: &[Vec<Pt>]) -> (Vec<Pt>, Vec<usize>, Vec<Vec<f64>>) {
    let mut pts = Vec::new();
    let mut owner = Vec::new();
    for (i, o) in obs.iter().enumerate() {
        pts.extend(o.iter().copied());
        owner.extend(std::iter::repeat(i).take(o.len()));
    }
    let n = pts.len();
    let mut w = vec![vec![0.0; n]; n];
    for (i, o) in obs.iter().enumerate() {
        let s = owner.iter().position(|&x| x == i).unwrap();
        for k in 0..o.len() {
            let (a, b) = (s + k, s + (k + 1) % o.len());
            w[a][b] = geo::dist(pts[a], pts[b]);
            w[b][a] = w[a][b];
        }
    }
    for a in 0..n {
        for b in 0..a {
            if w[a][b] == 0.0 && !blocked(obs, &[], pts[a], pts[b]) {
                w[a][b] = geo::dist(pts[a], pts[b]);
                w[b][a] = w[a][b];
            }
        }
    }
    (pts, owner, w)
}

fn open(obs: &[Vec<Pt>]) -> vconfig_t {
    let polys: Vec<Ppoly_t> = obs.iter().map(|o| poly(o)).collect();
    let refs: Vec<&Ppoly_t> = polys.iter().collect();
    Pobsopen(&refs)
}

// ---------------------------------------------------------------- P02

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ObsCase {
    obs: Vec<Vec<Pt>>,
    /// see `geo::frame`
    #[serde(default)]
    frame: u8,
}

struct Visibility;
impl Part for Visibility {
    type Case = ObsCase;
    const NAME: &'static str = "visibility-graph";
    fn cases(t: Tier) -> u64 {
        t.pick(500_000, 10_000_000)
    }
    fn strategy(t: Tier) -> BoxedStrategy<ObsCase> {
        let m = t.pick(5, 9);
        prop_oneof![
            20_000 => obstacles(12, 4, 5, false, true),
            30_000 => obstacles(40, m, 6, false, true),
            30_000 => obstacles(100, m, 9, false, true),
            10_000 => obstacles(1000, m, 8, false, false),
            20 => many_obstacles(),
            1 => grid_of_obstacles(7..12, 6),
            1 => specks(),
            2 => corridors(20..200, 400).prop_map(|c| vec![cw(c.0)]),
        ]
        .prop_flat_map(|obs| (Just(obs), frames()))
        .prop_map(|(obs, frame)| ObsCase { obs, frame })
        .boxed()
    }
    fn check(c: &ObsCase, cx: &mut Ctx) -> Check {
        let _frame = warped_frame(c.frame, 16);
        let conf = open(&c.obs);
        let (pts, _, w) = vis_matrix(&c.obs);
        let n = pts.len();
        ensure_eq!(conf.N, n, "N");
        ensure_eq!(conf.Npoly, c.obs.len(), "Npoly");
        ensure_eq!(conf.P.len(), n, "number of points");
        let mut s = 0usize;
        for (i, o) in c.obs.iter().enumerate() {
            ensure_eq!(conf.start[i], s as i32, "start[{}]", i);
            for k in 0..o.len() {
                ensure_eq!(conf.P[s + k], f(o[k]), "P[{}]", s + k);
                ensure_eq!(conf.next[s + k], (s + (k + 1) % o.len()) as i32, "next[{}]", s + k);
                ensure_eq!(conf.prev[s + k], (s + (k + o.len() - 1) % o.len()) as i32, "prev[{}]", s + k);
            }
            s += o.len();
        }
        ensure_eq!(conf.start[c.obs.len()], n as i32, "start of the end");
        // computed once more, over whatever was there
        let mut again = conf.clone();
        for i in 0..n {
            for j in 0..n {
                again.vis[(i, j)] = ((i * 7 + j) % 5) as f64;
            }
        }
        visibility(&mut again);
        let mut blocked = 0;
        let mut seen = 0;
        for i in 0..n {
            for j in 0..n {
                ensure!(close(again.vis[(i, j)], w[i][j]), "vis[{}, {}] is {} when computed again, expected {}", i, j, again.vis[(i, j)], w[i][j]);
                ensure!(close(conf.vis[(i, j)], w[i][j]), "vis[{}, {}] is {}, expected {} ({:?} to {:?})", i, j, conf.vis[(i, j)], w[i][j], pts[i], pts[j]);
                if i < j {
                    blocked += (w[i][j] == 0.0) as usize;
                    seen += (w[i][j] != 0.0) as usize;
                }
            }
        }
        cx.label_if(c.obs.iter().any(|o| o.len() >= 3 && hull(o.clone()).len() < o.len()), "not-convex");
        cx.label_if(c.obs.iter().any(|o| o.len() < 3), "point-or-segment");
        cx.nt_if(c.obs.len() >= 2 && blocked >= 3 && seen > n);
        Ok(())
    }
}

// ---------------------------------------------------------------- P03

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RouteCase {
    obs: Vec<Vec<Pt>>,
    p: Pt,
    q: Pt,
    /// see `geo::frame`
    #[serde(default)]
    frame: u8,
}

fn route_case(size: i64, m: usize, corners: usize, convex: bool, deg: bool) -> BoxedStrategy<RouteCase> {
    let at = move || prop_oneof![3 => (-3..size + 3, -3..size + 3), 1 => (Just(-4i64), -3..size), 1 => (Just(size + 4), -3..size)];
    (obstacles(size, m, corners, convex, deg), at(), at(), any::<u16>(), any::<u16>(), 0u8..8)
        .prop_map(|(obs, mut p, mut q, a, b, how)| {
            // some endpoints on the corners or in the middle of obstacles
            if !obs.is_empty() {
                let pick = |x: u16| {
                    let o = &obs[x as usize % obs.len()];
                    let k = (x / 16) as usize % o.len();
                    if x % 3 == 0 {
                        o[k]
                    } else {
                        ((o[0].0 + o[k].0 + o[o.len() - 1].0) / 3, (o[0].1 + o[k].1 + o[o.len() - 1].1) / 3)
                    }
                };
                if how & 1 != 0 {
                    p = pick(a);
                }
                if how & 6 == 6 {
                    q = pick(b);
                }
            }
            RouteCase { obs, p, q, frame: 0 }
        })
        .boxed()
}

/// Bars side by side, from one side to the other.
fn bars() -> BoxedStrategy<RouteCase> {
    let bar = (3i64..12, -40i64..30, 5i64..60, vec(-2i64..3, 4));
    (vec(bar, 2..7), (-40i64..60, -40i64..60), any::<bool>(), any::<bool>())
        .prop_map(|(bars, (y0, y1), flip, back)| {
            let mut x = 0;
            let mut obs = Vec::new();
            for (w, y, h, j) in bars {
                x += 6;
                obs.push(cw(vec![(x + j[0], y), (x + w + 2, y + j[1]), (x + w + 3 + j[2], y + h), (x, y + h + j[3])]));
                x += w;
            }
            let (mut p, mut q) = ((-2, y0), (x + 8, y1));
            if back {
                std::mem::swap(&mut p, &mut q);
            }
            if flip {
                let t = |p: Pt| (p.1, p.0);
                obs = obs.into_iter().map(|o| cw(o.into_iter().map(t).collect())).collect();
                p = t(p);
                q = t(q);
            }
            RouteCase { obs, p, q, frame: 0 }
        })
        .prop_filter("touching", |c| (0..c.obs.len()).all(|i| simple(&c.obs[i]) && (0..i).all(|j| disjoint(&c.obs[i], &c.obs[j]))))
        .boxed()
}

/// A winding obstacle and endpoints in its pockets, and maybe a second obstacle in another one.
fn pockets(cell: std::ops::Range<i64>, corners: usize) -> BoxedStrategy<RouteCase> {
    (corridors(cell, corners), vec((any::<u16>(), any::<u16>()), 3), polygon(12, 5), 0usize..40)
        .prop_map(|((ps, _), at, other, by)| {
            let ps = rotate(cw(ps), by);
            let x: Vec<i64> = ps.iter().map(|p| p.0).collect();
            let y: Vec<i64> = ps.iter().map(|p| p.1).collect();
            let pick = |v: &[i64], k: u16| {
                let (lo, hi) = (*v.iter().min().unwrap() - 2, *v.iter().max().unwrap() + 2);
                lo + k as i64 % (hi - lo + 1)
            };
            let at: Vec<Pt> = at.iter().map(|a| (pick(&x, a.0), pick(&y, a.1))).collect();
            let other: Vec<Pt> = other.into_iter().map(|p| (p.0 + at[2].0, p.1 + at[2].1)).collect();
            let mut obs = vec![ps];
            if disjoint(&obs[0], &other) {
                obs.push(cw(other));
            }
            RouteCase { obs, p: at[0], q: at[1], frame: 0 }
        })
        .prop_filter("not simple", |c| simple(&c.obs[0]))
        .boxed()
}

/// The obstacle that p belongs to; Err: p is on an obstacle in a way that is not part of the domain.
fn home(obs: &[Vec<Pt>], p: Pt) -> Result<Option<usize>, ()> {
    let mut h = None;
    for (i, o) in obs.iter().enumerate() {
        if o.len() >= 3 {
            if side(o, p) != Side::Out {
                h = Some(i);
            }
        } else if edges_of(o).any(|(a, b)| on_closed(a, b, p)) {
            h = Some(i);
        }
    }
    Ok(h)
}

struct Routing;
impl Part for Routing {
    type Case = RouteCase;
    const NAME: &'static str = "routing";
    fn cases(t: Tier) -> u64 {
        t.pick(600_000, 12_000_000)
    }
    fn strategy(t: Tier) -> BoxedStrategy<RouteCase> {
        let m = t.pick(6, 10);
        prop_oneof![
            20_000 => route_case(12, 4, 5, false, true),
            30_000 => route_case(40, m, 6, false, true),
            20_000 => route_case(40, m, 6, true, false),
            30_000 => route_case(100, m, 8, false, true),
            10_000 => route_case(1000, m, 8, false, false),
            50_000 => bars(),
            50_000 => pockets(10..80, t.pick(14, 24)),
            50 => pockets(10..80, 120),
            3 => pockets(10..80, 400),
            50 => (many_obstacles(), (-5i64..300, -5i64..300), (-5i64..300, -5i64..300)).prop_map(|(obs, p, q)| RouteCase { obs, p, q, frame: 0 }),
            2 => (grid_of_obstacles(7..12, 6), (-5i64..500, -5i64..500), (-5i64..500, -5i64..500)).prop_map(|(obs, p, q)| RouteCase { obs, p, q, frame: 0 }),
            2 => (specks(), (-5i64..150, -5i64..150), (-5i64..150, -5i64..150)).prop_map(|(obs, p, q)| RouteCase { obs, p, q, frame: 0 }),
        ]
        .prop_flat_map(|c| (Just(c), frames()))
        .prop_map(|(c, frame)| RouteCase { frame, ..c })
        .boxed()
    }
    fn check(c: &RouteCase, cx: &mut Ctx) -> Check {
        let _frame = warped_frame(c.frame, 16);
        let (hp, hq) = match (home(&c.obs, c.p), home(&c.obs, c.q)) {
            (Ok(a), Ok(b)) => (a, b),
            _ => return Ok(()),
        };
        let conf = open(&c.obs);
        let (pts, owner, mut w) = vis_matrix(&c.obs);
        let n = pts.len();
        let convex = c.obs.iter().all(|o| o.len() >= 3 && hull(o.clone()).len() == o.len());
        let id = |h: Option<usize>| h.map(|i| i as i32).unwrap_or(POLYID_NONE);
        let skip = |h: Option<usize>| h.into_iter().collect::<Vec<usize>>();
        let mut rows = Vec::new();
        for (name, x, h) in [("p", c.p, hp), ("q", c.q, hq)] {
            let mut e = vec![0.0; n + 2];
            for k in 0..n {
                if Some(owner[k]) != h && !blocked(&c.obs, &skip(h), x, pts[k]) {
                    e[k] = geo::dist(x, pts[k]);
                }
            }
            let mut ids = vec![id(h)];
            if convex {
                ids.push(POLYID_UNKNOWN);
            }
            for i in ids {
                let got = ptVis(&conf, i, f(x));
                ensure_eq!(got.len(), n + 2, "ptVis({}, {}): length", name, i);
                for k in 0..n + 2 {
                    ensure!(close(got[k], e[k]), "ptVis({} = {:?}, polygon {}): entry {} is {}, expected {}", name, x, i, k, got[k], e[k]);
                }
            }
            rows.push(e);
        }
        let direct = {
            let mut s = skip(hp);
            s.extend(hq);
            !blocked(&c.obs, &s, c.p, c.q)
        };
        ensure_eq!(directVis(f(c.p), id(hp), f(c.q), id(hq), &conf), direct, "directVis({:?} in {:?}, {:?} in {:?})", c.p, hp, c.q, hq);
        ensure_eq!(directVis(f(c.q), id(hq), f(c.p), id(hp), &conf), direct, "directVis, exchanged");
        let (pvis, qvis) = (ptVis(&conf, id(hp), f(c.p)), ptVis(&conf, id(hq), f(c.q)));
        // vertex n is q, vertex n + 1 is p
        for r in w.iter_mut() {
            r.resize(n + 2, 0.0);
        }
        w.push(rows[1].clone());
        w.push(rows[0].clone());
        for k in 0..n {
            w[k][n] = rows[1][k];
            w[k][n + 1] = rows[0][k];
        }
        if direct {
            let d = geo::dist(c.p, c.q);
            // even if the points coincide, there is an edge
            let d = if d == 0.0 { f64::MIN_POSITIVE } else { d };
            w[n][n + 1] = d;
            w[n + 1][n] = d;
        }
        let shortest = dijkstra(&w, n + 1)[n];
        let dad = makePath(f(c.p), id(hp), &pvis, f(c.q), id(hq), &qvis, &conf);
        if !shortest.is_finite() {
            cx.label("unreachable");
            return check_cut_off(&dad, n + 1, n, &w).map_err(|e| format!("makePath: {}", e));
        }
        cx.label_if(shortest > 2147483647.0, "longer than 2^31");
        let expected = if direct { w[n][n + 1] } else { shortest };
        let path = check_dads(&dad, n + 1, n, &w, expected).map_err(|e| format!("makePath: {}", e))?;
        if direct {
            ensure_eq!(path, vec![n, n + 1], "path between points that see each other");
        }
        cx.label_if(hp.is_some() || hq.is_some(), "endpoint-in-obstacle");
        cx.label_if(direct, "direct");
        cx.nt_if(path.len() >= 4);
        Ok(())
    }
}

// ---------------------------------------------------------------- P04

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct InPolyCase {
    ps: Vec<Pt>,
    s: Pt,
    t: Pt,
    /// corners that are given twice
    #[serde(default)]
    twice: u32,
    /// see `geo::frame`
    #[serde(default)]
    frame: u8,
}

/// Is the segment inside the closed polygon?
fn inside(ps: &[Pt], a: Pt, b: Pt) -> bool {
    for (p, q) in edges_of(ps) {
        if proper(a, b, p, q) {
            return false;
        }
    }
    let mut cuts: Vec<Pt> = ps.iter().copied().filter(|&v| on_open(a, b, v)).collect();
    cuts.push(a);
    cuts.push(b);
    cuts.sort();
    let o2: Vec<Pt> = ps.iter().map(|p| (p.0 * 2, p.1 * 2)).collect();
    cuts.windows(2).all(|w| side(&o2, (w[0].0 + w[1].0, w[0].1 + w[1].1)) != Side::Out)
}

fn shortest_inside(ps: &[Pt], s: Pt, t: Pt) -> f64 {
    let mut nodes = ps.to_vec();
    nodes.push(s);
    nodes.push(t);
    let n = nodes.len();
    let mut w = vec![vec![0.0; n]; n];
    for i in 0..n {
        for j in 0..i {
            if inside(ps, nodes[i], nodes[j]) {
                let d = geo::dist(nodes[i], nodes[j]);
                let d = if d == 0.0 { f64::MIN_POSITIVE } else { d };
                w[i][j] = d;
                w[j][i] = d;
            }
        }
    }
    dijkstra(&w, n - 2)[n - 1]
}

pub fn inside_points(grow: i64) -> impl Fn(&[Pt], u64) -> Pt {
    move |ps, x| {
        // a point near a combination of three corners: mostly inside
        let n = ps.len() as u64;
        let (a, b, c) = (ps[(x % n) as usize], ps[((x / 64) % n) as usize], ps[((x / 4096) % n) as usize]);
        let (u, v, w) = ((x >> 20) as i64 % 17, (x >> 30) as i64 % 17, (x >> 40) as i64 % 17);
        let m = u + v + w + 1;
        let j = ((x >> 50) as i64 % (grow + 1), (x >> 56) as i64 % (grow + 1));
        ((a.0 * u + b.0 * v + c.0 * (w + 1)) / m + j.0, (a.1 * u + b.1 * v + c.1 * (w + 1)) / m + j.1)
    }
}

fn straight_corner(ps: &[Pt]) -> bool {
    let n = ps.len();
    (0..n).any(|i| cross(ps[i], ps[(i + 1) % n], ps[(i + 2) % n]) == 0)
}

/// A corner, or a point of a side if there is one with whole coordinates.
fn on_boundary(ps: &[Pt], r: u64) -> Pt {
    let i = (r % ps.len() as u64) as usize;
    let (a, b) = (ps[i], ps[(i + 1) % ps.len()]);
    for m in [2, 3, 5, 7] {
        let (dx, dy) = (b.0 - a.0, b.1 - a.1);
        if r >> 32 & 1 == 1 && dx % m == 0 && dy % m == 0 {
            let k = (r >> 33) as i64 % m;
            return (a.0 + dx / m * k, a.1 + dy / m * k);
        }
    }
    a
}

fn twice() -> BoxedStrategy<u32> {
    prop_oneof![12 => Just(0u32), 1 => any::<u32>(), 1 => any::<u32>().prop_map(|x| 1 << (x % 10))].boxed()
}

fn in_poly_case(polys: BoxedStrategy<Vec<Pt>>) -> BoxedStrategy<InPolyCase> {
    (polys, vec(any::<u64>(), 12), 0u8..20, twice())
        .prop_map(|(ps, r, k, twice)| {
            let at = inside_points(2);
            let cand: Vec<Pt> = r.iter().map(|x| at(&ps, *x)).collect();
            let ins: Vec<Pt> = cand.iter().copied().filter(|p| side(&ps, *p) == Side::In).collect();
            let (mut s, mut t) = (ins.first().copied().unwrap_or(cand[0]), ins.last().copied().unwrap_or(cand[1]));
            match k {
                0 => s = cand[2],
                1 => t = cand[3],
                2 => {
                    s = cand[4];
                    t = cand[5];
                }
                3 | 4 => s = on_boundary(&ps, r[7]),
                5 | 6 => t = on_boundary(&ps, r[8]),
                7 => {
                    s = on_boundary(&ps, r[7]);
                    t = on_boundary(&ps, r[8]);
                }
                _ => {}
            }
            InPolyCase { ps, s, t, twice, frame: 0 }
        })
        .boxed()
}

/// Long corridors, mostly from one end to the other.
fn corridor_case(cell: std::ops::Range<i64>, corners: usize) -> BoxedStrategy<InPolyCase> {
    (corridors(cell, corners), any::<bool>(), 0usize..64, vec((-3i64..4, -3i64..4), 2), 0u8..8, any::<(u8, u8)>())
        .prop_map(|((ps, walk), rev, by, d, k, (i, j))| {
            let mut ps = rotate(ps, by);
            if rev {
                ps.reverse();
            }
            let (mut s, mut t) = (walk[0], walk[walk.len() - 1]);
            if k & 1 != 0 {
                std::mem::swap(&mut s, &mut t);
            }
            if k == 6 {
                s = walk[i as usize % walk.len()];
                t = walk[j as usize % walk.len()];
            }
            InPolyCase { ps, s: (s.0 + d[0].0, s.1 + d[0].1), t: (t.0 + d[1].0, t.1 + d[1].1), twice: 0, frame: 0 }
        })
        .prop_filter("not simple", |c| simple(&c.ps))
        .boxed()
}

/// Around a bend, from one end to the other.
fn bend_case(size: i64, corners: usize) -> BoxedStrategy<InPolyCase> {
    (bends(size, corners), any::<bool>()).prop_map(|((ps, e), k)| InPolyCase { ps, s: e[k as usize], t: e[1 - k as usize], twice: 0, frame: 0 }).boxed()
}

struct InPolygon;
impl Part for InPolygon {
    type Case = InPolyCase;
    const NAME: &'static str = "in-polygon";
    fn cases(t: Tier) -> u64 {
        t.pick(700_000, 14_000_000)
    }
    fn strategy(t: Tier) -> BoxedStrategy<InPolyCase> {
        let big = t.pick(16, 28);
        prop_oneof![3000 => in_poly_case(aligned(12)), 2000 => in_poly_case(polygon(30, 6)), 3000 => in_poly_case(polygon(100, 9)), 3000 => in_poly_case(polygon(1000, 12)), 1000 => in_poly_case(polygon(5000, big)), 8000 => corridor_case(20..400, big + 4), 1000 => bend_case(6, 6), 1000 => bend_case(30, big), 10 => bend_case(100, 50), 10 => corridor_case(20..400, 160), 5 => in_poly_case(polygon(20_000, 60)), 3 => in_poly_case(aligned(80)), 2 => corridor_case(20..400, 350)].prop_flat_map(|c| (Just(c), frames())).prop_map(|(c, frame)| InPolyCase { frame, ..c }).boxed()
    }
    fn check(c: &InPolyCase, cx: &mut Ctx) -> Check {
        let _frame = warped_frame(c.frame, 10);
        let (ss, st) = (side(&c.ps, c.s), side(&c.ps, c.t));
        cx.label_if(!general_position(&c.ps), "three-corners-on-a-line");
        cx.label_if(straight_corner(&c.ps), "straight-corner");
        cx.label_if(ss == Side::On || st == Side::On, "endpoint-on-boundary");
        let mut given = Vec::new();
        for (i, p) in c.ps.iter().enumerate() {
            given.push(*p);
            if c.twice >> (i % 32) & 1 == 1 {
                given.push(*p);
            }
        }
        let r = Pshortestpath(&poly(&given), &[f(c.s), f(c.t)]);
        let out = match r {
            Err(ShortestPathError::SourcePointNotInAnyTriangle) => {
                ensure!(ss == Side::Out, "the source {:?} is inside the polygon, but not found", c.s);
                cx.label("source-outside");
                return Ok(());
            }
            Err(ShortestPathError::DestPointNotInAnyTriangle) => {
                ensure!(st == Side::Out && ss != Side::Out, "destination {:?} ({:?}), source {:?} ({:?}): the destination is reported as outside", c.t, st, c.s, ss);
                cx.label("destination-outside");
                return Ok(());
            }
            Ok(o) => o.ps,
        };
        ensure!(ss != Side::Out && st != Side::Out, "a path for {:?} ({:?}) to {:?} ({:?})", c.s, ss, c.t, st);
        ensure!(out.len() >= 2, "a path of {} points", out.len());
        ensure_eq!(out[0], f(c.s), "first point");
        ensure_eq!(out[out.len() - 1], f(c.t), "last point");
        let mut path = Vec::new();
        for p in out.iter() {
            let i = back(*p).unwrap_or((i64::MAX, 0));
            ensure!((i == c.s || i == c.t || c.ps.contains(&i)), "{:?} is neither an endpoint nor a corner", p);
            path.push(i);
        }
        let mut len = 0.0;
        for w in path.windows(2) {
            ensure!(inside(&c.ps, w[0], w[1]), "path {:?}: the segment {:?} - {:?} leaves the polygon", path, w[0], w[1]);
            len += geo::dist(w[0], w[1]);
        }
        let exp = shortest_inside(&c.ps, c.s, c.t);
        ensure!(close(len, exp), "path {:?} has length {}, the shortest one {}", path, len, exp);
        cx.label_if(path.len() == 2, "straight");
        cx.label_if(path.len() * 4 > c.ps.len() * 3 && path.len() > 12, "most-corners-on-the-path");
        cx.label_if(given.len() > c.ps.len(), "repeated-corner");
        cx.nt_if(path.len() >= 4);
        Ok(())
    }
}

// ---------------------------------------------------------------- P07

#[cfg(feature = "hook_triang")]
struct Triangles;
#[cfg(feature = "hook_triang")]
impl Part for Triangles {
    type Case = ObsCase;
    const NAME: &'static str = "triangulate";
    fn cases(t: Tier) -> u64 {
        t.pick(400_000, 6_000_000)
    }
    fn strategy(t: Tier) -> BoxedStrategy<ObsCase> {
        let big = t.pick(24, 40);
        prop_oneof![500 => aligned(16), 500 => polygon(40, 7), 500 => polygon(1000, 12), 500 => polygon(5000, big), 1 => polygon(20_000, 80), 1 => aligned(120), 1 => corridors(20..400, 400).prop_map(|c| c.0)].prop_flat_map(|p| (Just(p), frames())).prop_map(|(p, frame)| ObsCase { obs: vec![cw(p)], frame }).boxed()
    }
    fn check(c: &ObsCase, cx: &mut Ctx) -> Check {
        let _frame = warped_frame(c.frame, 10);
        let ps = &c.obs[0];
        cx.label_if(!general_position(ps), "three-corners-on-a-line");
        cx.label_if(straight_corner(ps), "straight-corner");
        let n = ps.len();
        let tris = trellis::pathplan::triang::vp_triangulate(&poly(ps));
        ensure_eq!(tris.len(), n - 2, "number of triangles");
        let mut count: std::collections::BTreeMap<(usize, usize), i32> = Default::default();
        let mut area = 0;
        let o2: Vec<Pt> = ps.iter().map(|p| (p.0 * 2, p.1 * 2)).collect();
        for t in &tris {
            let mut ix = Vec::new();
            for p in t {
                ix.push(ps.iter().position(|q| f(*q) == *p).ok_or_else(|| format!("{:?} is not a corner", p))?);
            }
            let a = cross(ps[ix[0]], ps[ix[1]], ps[ix[2]]).abs();
            ensure!(a != 0, "a flat triangle {:?}", t);
            area += a;
            for k in 0..3 {
                let (i, j) = (ix[k].min(ix[(k + 1) % 3]), ix[k].max(ix[(k + 1) % 3]));
                *count.entry((i, j)).or_insert(0) += 1;
                if j - i != 1 && j - i != n - 1 {
                    ensure!(inside(ps, ps[i], ps[j]), "the diagonal {:?} - {:?} leaves the polygon", ps[i], ps[j]);
                    ensure!(side(&o2, (ps[i].0 + ps[j].0, ps[i].1 + ps[j].1)) == Side::In, "the diagonal {:?} - {:?} is outside", ps[i], ps[j]);
                }
            }
        }
        ensure_eq!(area, area2(ps).abs(), "twice the area of the triangles");
        for ((i, j), k) in count {
            let edge = j - i == 1 || j - i == n - 1;
            ensure_eq!(k, if edge { 1 } else { 2 }, "triangles at {} - {}", i, j);
        }
        cx.nt_if(n >= 5 && hull(ps.clone()).len() < n);
        Ok(())
    }
}

// ---------------------------------------------------------------- P08

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct HitCase {
    obs: Vec<Vec<Pt>>,
    at: Vec<Pt>,
    /// see `geo::frame`
    #[serde(default)]
    frame: u8,
}
/// A convex polygon, with sides along all directions up to a size (hundreds of them).
fn round(k: i64) -> Vec<Pt> {
    let mut sides: Vec<Pt> = Vec::new();
    for x in 1..=k {
        for y in 0..=k {
            let (mut a, mut b) = (x, y);
            while b != 0 {
                (a, b) = (b, a % b);
            }
            if a == 1 && x * x + y * y <= k * k {
                sides.push((x, y));
            }
        }
    }
    sides.sort_by(|a, b| (b.0 * a.1).cmp(&(a.0 * b.1)));
    let mut at = (0, 0);
    let mut ps = Vec::new();
    for q in 0..4 {
        for s in &sides {
            ps.push(at);
            let d = [(s.0, s.1), (-s.1, s.0), (-s.0, -s.1), (s.1, -s.0)][q];
            at = (at.0 + d.0, at.1 + d.1);
        }
    }
    let low = ps.iter().fold((0, 0), |m, p| (m.0.min(p.0), m.1.min(p.1)));
    cw(ps.into_iter().map(|p| (p.0 - low.0, p.1 - low.1)).collect())
}
struct Hit;
impl Part for Hit {
    type Case = HitCase;
    const NAME: &'static str = "point-in-polygon";
    fn cases(t: Tier) -> u64 {
        t.pick(300_000, 5_000_000)
    }
    fn strategy(_: Tier) -> BoxedStrategy<HitCase> {
        let polys = |size: i64| vec((prop_oneof![40 => polygon(size / 2, 9), 1 => vec((0..size / 2, 0..size / 2), 30..200)].prop_map(hull).prop_map(cw), 0..size / 2, 0..size / 2), 1..5).prop_filter("flat", |v| v.iter().all(|p| p.0.len() >= 3));
        let round = (3i64..20, 0i64..200, 0i64..200).prop_map(|(k, x, y)| vec![(round(k), x, y)]);
        prop_oneof![300 => (Just(20i64), polys(20)), 300 => (Just(120), polys(120)), 300 => (Just(5000), polys(5000)), 1 => (Just(5000), round.boxed())]
            .prop_flat_map(|(size, p)| {
                let obs: Vec<Vec<Pt>> = p.into_iter().map(|(p, x, y)| p.into_iter().map(|q| (q.0 + x, q.1 + y)).collect()).collect();
                (Just(obs), vec((-1..size, -1..size), 1..8), frames())
            })
            .prop_map(|(obs, at, frame)| HitCase { obs, at, frame })
            .boxed()
    }
    fn check(c: &HitCase, cx: &mut Ctx) -> Check {
        let _frame = warped_frame(c.frame, 8);
        let conf = open(&c.obs);
        let mut all = c.at.clone();
        for o in &c.obs {
            all.push(o[0]);
            let (a, b) = (o[0], o[1]);
            if (a.0 + b.0) % 2 == 0 && (a.1 + b.1) % 2 == 0 {
                all.push(((a.0 + b.0) / 2, (a.1 + b.1) / 2));
            }
            // the middle of the corners, and a point beyond an edge
            let n = o.len() as i64;
            all.push((o.iter().map(|p| p.0).sum::<i64>() / n, o.iter().map(|p| p.1).sum::<i64>() / n));
            all.push((2 * b.0 - a.0, 2 * b.1 - a.1));
        }
        let (mut hits, mut misses) = (0, 0);
        for &x in &all {
            let mut first = POLYID_NONE;
            for (i, o) in c.obs.iter().enumerate() {
                let ins = side(o, x) != Side::Out;
                ensure_eq!(in_poly(&poly(o).ps, f(x)), ins, "in_poly({:?}, {:?})", o, x);
                if ins && first == POLYID_NONE {
                    first = i as i32;
                }
            }
            ensure_eq!(polyhit(&conf, f(x)), first, "polyhit({:?})", x);
            if first == POLYID_NONE {
                misses += 1
            } else {
                hits += 1
            }
        }
        cx.nt_if(hits >= 1 && misses >= 1);
        Ok(())
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct TripleCase {
    a: Pt,
    b: Pt,
    c: Pt,
    scale: u8,
}
struct Triple;
impl Part for Triple {
    type Case = TripleCase;
    const NAME: &'static str = "orientation";
    fn cases(t: Tier) -> u64 {
        t.pick(600_000, 10_000_000)
    }
    fn strategy(_: Tier) -> BoxedStrategy<TripleCase> {
        let tri = |s: i64| ((-s..=s, -s..=s), (-s..=s, -s..=s), (-s..=s, -s..=s)).boxed();
        let line = |s: i64, m: i64| {
            ((-s..=s, -s..=s), (-s..=s, -s..=s), -m..=m, -m..=m).prop_map(|(a, d, j, k)| (a, (a.0 + d.0 * j, a.1 + d.1 * j), (a.0 + d.0 * k, a.1 + d.1 * k))).boxed()
        };
        (prop_oneof![tri(3), tri(16), tri(50), tri(1_000_000), line(5, 4), line(1000, 6)], 0u8..6).prop_map(|((a, b, c), scale)| TripleCase { a, b, c, scale }).boxed()
    }
    fn check(c: &TripleCase, cx: &mut Ctx) -> Check {
        // scaled by powers of two, so that the arithmetic stays exact
        let u = [1.0, 0.5, 0.125, 4.0, 1.0 / 1024.0, 1.0 / 128.0][c.scale as usize % 6];
        let g = |p: Pt| Vec2 { x: p.0 as f64 * u, y: p.1 as f64 * u };
        let w = cross(c.a, c.b, c.c);
        ensure_eq!(t_area2(g(c.a), g(c.b), g(c.c)), w as f64 * u * u, "area2");
        // anything up to 0.0001 counts as collinear
        let flat = (w as f64 * u * u).abs() <= 0.0001;
        ensure_eq!(wind(g(c.a), g(c.b), g(c.c)), if flat { 0 } else { w.signum() as i32 }, "wind");
        cx.label_if(flat && w != 0, "nearly-collinear");
        if w == 0 && c.a != c.b {
            ensure_eq!(inBetween(g(c.a), g(c.b), g(c.c)), on_open(c.a, c.b, c.c), "inBetween");
            cx.label("collinear");
        }
        cx.nt_if(c.a != c.b && c.b != c.c && c.a != c.c);
        Ok(())
    }
}

pub fn props() -> Vec<PropDef> {
    const OBS: &[&str] = &["obstacles are points, segments or simple polygons in clockwise order that do not touch each other", "coordinates on a grid whose unit is a power of two (1/64 to 1024; P04 and P07: 2^-20 to 2^20), so that the reference is exact"];
    #[allow(unused_mut)]
    let mut v = vec![
        PropDef {
            id: "P01",
            rule: "random symmetric weights in the lower triangle, garbage in the upper one, against a textbook Dijkstra; non-trivial: a shortest path of four or more vertices with more edges than that",
            assumptions: &["weights are positive"],
            parts: vec![part::<Matrix>()],
        },
        PropDef {
            id: "P02",
            rule: "random obstacles (convex, star-shaped, untangled random polygons, corridors, points, segments) against exact integer geometry: crossing edges, corners in between, middle of the segment inside a polygon; non-trivial: two or more obstacles, three or more blocked pairs and more visible pairs than corners",
            assumptions: OBS,
            parts: vec![part::<Visibility>()],
        },
        PropDef {
            id: "P03",
            rule: "random obstacles and endpoints outside, inside or on the corners of obstacles, against exact visibility and Dijkstra on the expected visibility graph; non-trivial: a path with two or more bends",
            assumptions: OBS,
            parts: vec![part::<Routing>()],
        },
        PropDef {
            id: "P04",
            rule: "random simple polygons of either direction and endpoints inside or outside, against the shortest path over the exact visibility graph inside the polygon; non-trivial: a path with two or more bends",
            assumptions: &["simple polygon; corners may be repeated or in the middle of a straight side", "coordinates on a grid whose unit is a power of two (1/64 to 1024; P04 and P07: 2^-20 to 2^20), so that the reference is exact"],
            parts: vec![part::<InPolygon>()],
        },
        PropDef {
            id: "P08",
            rule: "random convex polygons and points (corners, edge middles, beyond edges) against exact integer tests, and random triples of points; non-trivial: both a hit and a miss (polygons), three different points (triples)",
            assumptions: &["polygons are convex and in clockwise order", "coordinates for which the arithmetic is exact"],
            parts: vec![part::<Hit>(), part::<Triple>()],
        },
    ];
    #[cfg(feature = "hook_triang")]
    v.push(PropDef {
        id: "P07",
        rule: "random simple clockwise polygons: number, corners, diagonals and total area of the triangles, and how often each side is used; non-trivial: five or more corners and not convex",
        assumptions: &["simple polygon in clockwise order", "called through a hook, since the function is private"],
        parts: vec![part::<Triangles>()],
    });
    v
}
