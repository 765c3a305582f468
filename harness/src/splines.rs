//! Roots of cubics, fitted splines, elliptic wedges.
use crate::core::*;
use crate::geo::{self, *};
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use trellis::common::ellipse::{ellipticWedge, PathTarget};
use trellis::pathplan::route::Proutespline;
use trellis::pathplan::shortest::Pshortestpath;
use trellis::pathplan::solvers::solve3;
use trellis::pathplan::Pedge_t;
use trellis::polyline::Ppoly_t;
use trellis::vec2::Vec2;

type V = Vec2<f64>;

// ---------------------------------------------------------------- P06

/// A polynomial given by its real roots (in 1/64), an optional pair of complex ones,
/// and a factor.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct PolyCase {
    roots: Vec<i32>,
    /// x^2 - 2 re x + re^2 + im^2, in 1/64
    pair: Option<(i32, i32)>,
    factor: i32,
    /// what stands in for the coefficients that are 0
    tiny: [i8; 3],
}
struct Roots;
impl Part for Roots {
    type Case = PolyCase;
    const NAME: &'static str = "known-roots";
    fn cases(t: Tier) -> u64 {
        t.pick(2_000_000, 40_000_000)
    }
    fn strategy(_: Tier) -> BoxedStrategy<PolyCase> {
        let r = || prop_oneof![2 => -640i32..=640, 1 => -5i32..6, 2 => 0i32..=64, 1 => -6400..=6400];
        let roots = prop_oneof![
            4 => (vec(r(), 3..=3), Just(None)),
            3 => (vec(r(), 1..=1), (r(), 7i32..640).prop_map(Some)),
            2 => (vec(r(), 2..=2), Just(None)),
            1 => (Just(vec![]), (r(), 7i32..640).prop_map(Some)),
            2 => (vec(r(), 1..=1), Just(None)),
            1 => (Just(vec![]), Just(None)),
            2 => r().prop_map(|x| (vec![x, x], None)),
            1 => r().prop_map(|x| (vec![x, x, x], None)),
            2 => (r(), r()).prop_map(|(x, y)| (vec![x, y, x], None)),
        ];
        let factor = prop_oneof![3 => Just(64i32), 2 => Just(-64), 2 => 1i32..6400, 2 => -6400i32..0, 1 => Just(0)];
        (roots, factor, any::<[i8; 3]>()).prop_map(|((roots, pair), factor, tiny)| PolyCase { roots, pair, factor, tiny }).boxed()
    }
    fn check(c: &PolyCase, cx: &mut Ctx) -> Check {
        let k = c.factor as f64 / 64.0;
        let mut p = vec![k];
        let mul = |p: &[f64], q: &[f64]| {
            let mut r = vec![0.0; p.len() + q.len() - 1];
            for (i, a) in p.iter().enumerate() {
                for (j, b) in q.iter().enumerate() {
                    r[i + j] += a * b;
                }
            }
            r
        };
        let at = |r: i32| r as f64 / 64.0;
        for r in &c.roots {
            p = mul(&p, &[-at(*r), 1.0]);
        }
        if let Some((re, im)) = c.pair {
            p = mul(&p, &[at(re) * at(re) + at(im) * at(im), -2.0 * at(re), 1.0]);
        }
        if p.len() > 4 {
            return Ok(());
        }
        let degree = p.len() - 1;
        // Coefficients of less than 1e-7 count as 0 if all higher ones do.
        let mut co = [0.0; 4];
        co[..p.len()].copy_from_slice(&p);
        for i in degree + 1..4 {
            co[i] = c.tiny[i - 1] as f64 * 7e-10;
        }
        let (n, got) = solve3(&co);
        if c.factor == 0 {
            ensure_eq!(n, 4, "solve3({:?}): every number is a root", co);
            cx.label("zero");
            return Ok(());
        }
        if degree == 0 {
            ensure_eq!(n, 0, "solve3({:?}): number of roots", co);
            return Ok(());
        }
        ensure!(n <= 3, "solve3({:?}) gives {} roots", co, n);
        let mut exp: Vec<f64> = c.roots.iter().map(|r| at(*r)).collect();
        exp.sort_by(|a, b| a.partial_cmp(b).unwrap());
        let gap = exp.windows(2).map(|w| w[1] - w[0]).fold(f64::INFINITY, f64::min);
        let size = exp.iter().map(|x| x.abs()).chain(c.pair.map(|(a, b)| at(a).abs() + at(b))).fold(1.0, f64::max);
        let mut got: Vec<f64> = got[..n].to_vec();
        got.sort_by(|a, b| a.partial_cmp(b).unwrap_or(std::cmp::Ordering::Equal));
        // Errors grow with the size of all roots and near other roots.
        let far = c.pair.map(|(_, b)| at(b)).unwrap_or(f64::INFINITY).min(gap);
        if far < 0.01 * size {
            // Roots that (nearly) coincide: some may be missing, but what is reported is a
            // root, and single ones are there.
            for g in &got {
                let near = exp.iter().map(|e| (e - g).abs()).fold(f64::INFINITY, f64::min);
                let near = c.pair.map(|(a, b)| (at(a) - g).abs().max(at(b))).unwrap_or(f64::INFINITY).min(near);
                ensure!(near <= 0.02 * size, "solve3({:?}) gives {}, the roots are {:?}", co, g, exp);
            }
            for (i, e) in exp.iter().enumerate() {
                let alone = exp.iter().enumerate().all(|(j, x)| i == j || (x - e).abs() > 0.1 * size);
                if alone && c.pair.is_none() {
                    ensure!(got.iter().any(|g| (g - e).abs() <= 0.02 * size), "solve3({:?}) gives {:?}, not the root {}", co, got, e);
                }
            }
            cx.label("near-multiple");
            return Ok(());
        }
        ensure_eq!(n, exp.len(), "solve3({:?}): number of roots ({:?}, expected {:?})", co, got, exp);
        for (g, e) in got.iter().zip(&exp) {
            // With a complex pair, cube roots of small differences lose a third of the digits.
            let tol = if c.pair.is_some() && degree == 3 { 5e-5 } else { 1e-6 };
            ensure!((g - e).abs() <= tol * size, "solve3({:?}) gives the roots {:?}, expected {:?}", co, got, exp);
        }
        cx.label(["", "degree-1", "degree-2", "degree-3"][degree]);
        cx.label_if(c.pair.is_some(), "complex-pair");
        cx.nt_if(degree >= 2);
        Ok(())
    }
}

/// Multiple roots where all the numbers are exact: s + r twice, and s - 2 r.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct DoubleCase {
    s: i32,
    r: i32,
    /// power of 2
    factor: i8,
    negative: bool,
    square: bool,
}
struct DoubleRoots;
impl Part for DoubleRoots {
    type Case = DoubleCase;
    const NAME: &'static str = "exact-double-roots";
    fn cases(t: Tier) -> u64 {
        t.pick(200_000, 4_000_000)
    }
    fn strategy(_: Tier) -> BoxedStrategy<DoubleCase> {
        let x = || prop_oneof![-9i32..=9, -300i32..=300];
        (x(), prop_oneof![1 => Just(0i32), 9 => x()], -6i8..7, any::<bool>(), prop_oneof![3 => Just(false), 1 => Just(true)])
            .prop_map(|(s, r, factor, negative, square)| DoubleCase { s, r, factor, negative, square })
            .boxed()
    }
    fn check(c: &DoubleCase, cx: &mut Ctx) -> Check {
        let k = 2f64.powi(c.factor as i32) * if c.negative { -1.0 } else { 1.0 };
        let (d, e) = ((c.s + c.r) as i64, (c.s - 2 * c.r) as i64);
        let mut co = if c.square { [d * d, -2 * d, 1, 0] } else { [-d * d * e, d * d + 2 * d * e, -2 * d - e, 1] }.map(|x| x as f64 * k);
        if c.square {
            co[3] = 0.0;
        }
        let (n, r) = solve3(&co);
        ensure!(n <= 3, "solve3({:?}) gives {} roots", co, n);
        let got = &r[..n];
        let tol = 1e-9 * (1.0 + (c.s.abs() + c.r.abs()) as f64);
        let want: &[i64] = if c.square { &[d] } else { &[d, e] };
        for w in want {
            ensure!(got.iter().any(|g| (g - *w as f64).abs() <= tol), "solve3({:?}) gives {:?}, not the root {}", co, got, w);
        }
        for g in got {
            ensure!(want.iter().any(|w| (g - *w as f64).abs() <= tol), "solve3({:?}) gives {:?}, of which {} is no root", co, got, g);
        }
        cx.label_if(!c.square && c.r == 0, "triple");
        cx.nt_if(c.r != 0 && c.s != 0);
        Ok(())
    }
}

/// A small leading coefficient: one root is far away.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct FarCase {
    /// in 1/16
    near: Vec<i32>,
    /// the far root in units of 2000
    far: i32,
    lead: i32,
}
struct FarRoot;
impl Part for FarRoot {
    type Case = FarCase;
    const NAME: &'static str = "far-root";
    fn cases(t: Tier) -> u64 {
        t.pick(1_000_000, 10_000_000)
    }
    fn strategy(_: Tier) -> BoxedStrategy<FarCase> {
        (vec(-160i32..=160, 0..3), prop_oneof![-2500i32..-4, 5i32..2500], prop_oneof![-1000i32..-100, 100i32..1000, 100i32..120])
            .prop_map(|(near, far, lead)| FarCase { near, far, lead })
            .boxed()
    }
    fn check(c: &FarCase, cx: &mut Ctx) -> Check {
        // leading coefficients from 1.01e-7 to 1e-6
        let far = c.far as f64 * 2000.0;
        let lead = c.lead as f64 * 1.01e-9;
        let mut co = [0.0; 4];
        let near: Vec<f64> = c.near.iter().map(|x| *x as f64 / 16.0).collect();
        match near[..] {
            [] => {
                co[1] = lead;
                co[0] = -lead * far;
            }
            [a] => {
                co[2] = lead;
                co[1] = -lead * (far + a);
                co[0] = lead * far * a;
            }
            [a, b] => {
                co[3] = lead;
                co[2] = -lead * (far + a + b);
                co[1] = lead * (far * (a + b) + a * b);
                co[0] = -lead * far * a * b;
            }
            _ => return Ok(()),
        }
        let (n, r) = solve3(&co);
        ensure!(n <= near.len() + 1, "solve3({:?}) gives {} roots", co, n);
        let r = &r[..n];
        ensure!(r.iter().any(|x| (x - far).abs() <= 1e-3 * far.abs()), "solve3({:?}) gives {:?}, not the root {}", co, r, far);
        if near.len() == 1 {
            ensure_eq!(n, 2, "solve3({:?}) gives {:?}", co, r);
            ensure!(r.iter().any(|x| (x - near[0]).abs() <= 1e-3), "solve3({:?}) gives {:?}, not the root {}", co, r, near[0]);
        }
        cx.nt_if(near.len() >= 1);
        Ok(())
    }
}

/// Any coefficients: what is reported is a root, and where the polynomial changes its
/// sign, there is one.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct CoefCase {
    co: [i32; 4],
    shift: u8,
}
struct AnyCubic;
impl Part for AnyCubic {
    type Case = CoefCase;
    const NAME: &'static str = "any-coefficients";
    fn cases(t: Tier) -> u64 {
        t.pick(1_500_000, 30_000_000)
    }
    fn strategy(_: Tier) -> BoxedStrategy<CoefCase> {
        let c = || prop_oneof![1 => Just(0i32), 3 => -9i32..10, 3 => -1000i32..1000];
        let lead = prop_oneof![1 => Just(0i32), 3 => -9i32..10, 2 => 50i32..1000];
        (c(), c(), c(), lead, 0u8..6).prop_map(|(a, b, c, d, shift)| CoefCase { co: [a, b, c, d], shift }).boxed()
    }
    fn check(c: &CoefCase, cx: &mut Ctx) -> Check {
        let unit = [1.0, 0.125, 16.0, 1048576.0, 2f64.powi(44), 0.1][c.shift as usize % 6];
        let co = c.co.map(|x| x as f64 * unit);
        let (n, roots) = solve3(&co);
        let deg = match (0..4).rev().find(|i| c.co[*i] != 0) {
            None => {
                ensure_eq!(n, 4, "solve3({:?})", co);
                return Ok(());
            }
            Some(d) => d,
        };
        ensure!(n <= deg, "solve3({:?}) gives {} roots", co, n);
        let val = |x: f64| co[0] + x * (co[1] + x * (co[2] + x * co[3]));
        let bound = 1.0 + (0..deg).map(|i| (co[i] / co[deg]).abs()).fold(0.0, f64::max);
        for r in &roots[..n] {
            ensure!(r.is_finite(), "solve3({:?}) gives {:?}", co, &roots[..n]);
            ensure!(r.abs() <= bound * 1.000001, "solve3({:?}) gives {}, beyond the bound {} of all roots", co, r, bound);
            // compared with the size that the terms could have at this distance
            let m = r.abs().max(0.05 * bound);
            let scale: f64 = (0..4).map(|i| co[i].abs() * m.powi(i as i32)).sum();
            let tol = if n == 1 && deg == 3 { 1e-4 } else { 1e-6 };
            ensure!(val(*r).abs() <= tol * scale, "solve3({:?}) gives {}, where the value is {}", co, r, val(*r));
        }
        ensure!(deg != 3 || n == 1 || n == 3, "solve3({:?}) gives {} roots", co, n);
        // Sign changes that are well apart.
        let steps = 64;
        let scale_at = |x: f64| (0..4).map(|i| co[i].abs() * x.abs().powi(i as i32)).sum::<f64>();
        let mut last: Option<(f64, f64)> = None;
        let mut crossings = 0;
        for i in 0..=steps {
            let x = -bound * 1.01 + 2.02 * bound * i as f64 / steps as f64;
            let v = val(x);
            if v.abs() <= 1e-3 * scale_at(x) {
                continue;
            }
            if let Some((x0, v0)) = last {
                if (v0 > 0.0) != (v > 0.0) {
                    crossings += 1;
                    let e = bound * 1e-4;
                    ensure!(roots[..n].iter().any(|r| *r > x0 - e && *r < x + e), "solve3({:?}) gives {:?}, none between {} and {}", co, &roots[..n], x0, x);
                }
            }
            last = Some((x, v));
        }
        if deg % 2 == 1 {
            ensure!(crossings >= 1 && n >= 1, "solve3({:?}) gives no root", co);
        }
        cx.nt_if(deg >= 2 && crossings >= 1);
        Ok(())
    }
}

// ---------------------------------------------------------------- P05

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SplineCase {
    edges: Vec<(Pt, Pt)>,
    path: Vec<Pt>,
    ev: [(i32, i32); 2],
    /// see `geo::frame`
    #[serde(default)]
    frame: u8,
}

fn at(sp: &[V], t: f64) -> V {
    let u = 1.0 - t;
    sp[0] * (u * u * u) + sp[1] * (3.0 * t * u * u) + sp[2] * (3.0 * t * t * u) + sp[3] * (t * t * t)
}
fn norm(v: V) -> V {
    let d = (v.x * v.x + v.y * v.y).sqrt();
    if d > 1e-3 {
        v / d
    } else {
        v
    }
}
fn dist(a: V, b: V) -> f64 {
    ((a.x - b.x) * (a.x - b.x) + (a.y - b.y) * (a.y - b.y)).sqrt()
}
/// v = c * dir for a c >= 0
fn along(v: V, dir: V, size: f64) -> bool {
    let cr = v.x * dir.y - v.y * dir.x;
    let dt = v.x * dir.x + v.y * dir.y;
    let d = (dir.x * dir.x + dir.y * dir.y).sqrt();
    let l = (v.x * v.x + v.y * v.y).sqrt();
    if d < 1e-9 {
        return l <= 1e-7 * size;
    }
    cr.abs() <= 1e-7 * size * d && dt >= -1e-7 * size * d
}

/// Does the piece clearly cross the edge (not near its ends, nor near the piece's)?
fn crosses(sp: &[V], a: V, b: V) -> Option<V> {
    let len = dist(a, b);
    let d = (b - a) / len;
    let off = |p: V| (p.x - a.x) * d.y - (p.y - a.y) * d.x;
    let s: Vec<f64> = sp.iter().map(|p| off(*p)).collect();
    if s.iter().all(|x| *x > 0.0) || s.iter().all(|x| *x < 0.0) {
        return None;
    }
    // The cubic in t whose roots are the crossings with the line. Not decided where it
    // is nearly a quadratic, since the roots are not well defined then.
    let k3 = (s[3] - 3.0 * s[2] + 3.0 * s[1] - s[0]).abs();
    let k2 = (3.0 * s[0] - 6.0 * s[1] + 3.0 * s[2]).abs();
    let k1 = (3.0 * (s[1] - s[0])).abs();
    let big = k2.max(k1).max(s[0].abs());
    let steep = (len / (b.x - a.x).abs()).min(1e6);
    if k3 * steep > 1e-9 && k3 < big * 1e-3 {
        return None;
    }
    if k3 < big * 1e-3 && k2 * steep > 1e-9 && k2 < k1.max(s[0].abs()) * 1e-3 {
        return None;
    }
    // The margin on both sides
    let m = 0.01 + 1e-4 * big;
    let n = 64;
    let mut last: Option<(f64, f64)> = None;
    for i in 0..=n {
        let t = i as f64 / n as f64;
        let v = off(at(sp, t));
        if v.abs() < m {
            continue;
        }
        if let Some((t0, v0)) = last {
            if (v0 > 0.0) != (v > 0.0) {
                let (mut lo, mut hi) = (t0, t);
                for _ in 0..50 {
                    let mid = 0.5 * (lo + hi);
                    if (off(at(sp, mid)) > 0.0) == (v0 > 0.0) {
                        lo = mid
                    } else {
                        hi = mid
                    }
                }
                let p = at(sp, lo);
                let along = (p.x - a.x) * d.x + (p.y - a.y) * d.y;
                if along > 0.05 && along < len - 0.05 && lo > 1e-4 && lo < 1.0 - 1e-4 {
                    return Some(p);
                }
            }
        }
        last = Some((t, v));
    }
    None
}

/// The largest multiples of the best fit come first.
const WIDTHS: [f64; 11] = [4.0, 2.0, 1.0, 0.5, 0.25, 0.125, 0.0625, 0.03125, 0.015625, 0.0078125, 0.0];

fn seg_dist(p: V, a: V, b: V) -> f64 {
    let d = b - a;
    let l2 = d.x * d.x + d.y * d.y;
    let t = (((p.x - a.x) * d.x + (p.y - a.y) * d.y) / l2).clamp(0.0, 1.0);
    dist(p, a + d * t)
}
/// Does the piece stay away from all barriers, except perhaps within 0.03 of their ends?
/// (Meeting a barrier as close to one of its ends does not count as crossing it.)
fn clear(sp: &[V], edges: &[Pedge_t]) -> bool {
    let len = polylen(sp);
    // the solver is not exact; leave out pieces whose size makes that visible
    if !(len < 1e5) {
        return false;
    }
    let tol = 1e-3 + 1e-4 * len;
    let spare = (0.0316 - 2.0 * tol).max(0.0);
    // no point of the curve is faster
    let speed = 3.0 * sp.windows(2).map(|w| dist(w[0], w[1])).fold(0.0, f64::max);
    fn apart(sp: &[V], a: V, b: V, m: f64, speed: f64, t: f64, half: f64, depth: u32) -> bool {
        let d = seg_dist(at(sp, t), a, b);
        if d > m + speed * half {
            return true;
        }
        if d <= m || depth == 0 {
            return false;
        }
        let h = half / 2.0;
        apart(sp, a, b, m, speed, t - h, h, depth - 1) && apart(sp, a, b, m, speed, t + h, h, depth - 1)
    }
    edges.iter().all(|e| {
        let l = dist(e.a, e.b);
        if l <= 2.0 * spare {
            return true;
        }
        let d = (e.b - e.a) * (spare / l);
        apart(sp, e.a + d, e.b - d, tol, speed, 0.5, 0.5, 12)
    })
}
fn polylen(p: &[V]) -> f64 {
    p.windows(2).map(|w| dist(w[0], w[1])).sum()
}

/// The output for the input points `path`, whose end directions are d0 and d1, must be the
/// widest multiple of the best fit that is clear of the barriers, or two such outputs.
fn best_fit(edges: &[Pedge_t], path: &[V], d0: V, d1: V, out: &[V], undecided: &mut bool) -> Check {
    let n = path.len();
    let (p0, p3) = (path[0], path[n - 1]);
    // chord length parameters
    let total = polylen(path);
    let ts: Vec<f64> = (0..n).map(|i| polylen(&path[..=i]) / total).collect();
    let bern = |t: f64| {
        let u = 1.0 - t;
        [u * u * u, 3.0 * t * u * u, 3.0 * t * t * u, t * t * t]
    };
    let dot = |a: V, b: V| a.x * b.x + a.y * b.y;
    // min over s0, s1 of the squares of path[i] - (p0 (b0 + b1) + s0 d0 b1 + s1 d1 b2 + p3 (b2 + b3)),
    // where both end directions are counted forwards
    let (mut m, mut r) = ([[0.0; 2]; 2], [0.0; 2]);
    for i in 0..n {
        let b = bern(ts[i]);
        let g = [d0 * b[1], d1 * b[2]];
        let rest = path[i] - (p0 * (b[0] + b[1]) + p3 * (b[2] + b[3]));
        for j in 0..2 {
            for k in 0..2 {
                m[j][k] += dot(g[j], g[k]);
            }
            r[j] += dot(g[j], rest);
        }
    }
    let det = m[0][0] * m[1][1] - m[0][1] * m[1][0];
    if det.abs() > 5e-7 && det.abs() < 1e-5 {
        *undecided = true;
        return Ok(());
    }
    let fallback = dist(p0, p3) / 3.0;
    let (mut s0, mut s1) = (fallback, fallback);
    if det.abs() >= 1e-6 {
        let (u0, u1) = ((r[0] * m[1][1] - r[1] * m[0][1]) / det, (m[0][0] * r[1] - m[0][1] * r[0]) / det);
        if u0.abs() < 1e-6 * total || u1.abs() < 1e-6 * total {
            *undecided = true;
            return Ok(());
        }
        if u0 > 0.0 && u1 > 0.0 {
            s0 = u0;
            s1 = u1;
        }
    }
    let cand = |w: f64| [p0, p0 + d0 * (s0 * w / 3.0), p3 - d1 * (s1 * w / 3.0), p3];
    if out.len() == 4 {
        let tol = 1e-7 * (s0 + s1 + total);
        let w = WIDTHS.iter().position(|w| {
            let c = cand(*w);
            (0..4).all(|i| dist(c[i], out[i]) <= tol)
        });
        let w = match w {
            // the directions of both ends may be zero
            None => return Err(format!("the piece {:?} is not a multiple of the best fit {:?} of {:?}", out, cand(1.0), path)),
            Some(w) => w,
        };
        if w > 0 {
            ensure!(!clear(&cand(WIDTHS[w - 1]), edges), "the piece {:?} of {:?} is narrower than necessary: {:?} is clear of all barriers", out, path, cand(WIDTHS[w - 1]));
        }
        if n > 2 {
            ensure!(polylen(&cand(4.0)) >= polylen(path) - 2e-3, "the piece {:?} is given for {:?}, although its widest form is shorter than the path", out, path);
        }
        return Ok(());
    }
    ensure!(n > 2, "{} output points for two input points", out.len());
    let short = polylen(&cand(4.0)) < polylen(path) - 0.5e-3;
    if !short {
        for w in WIDTHS {
            ensure!(!clear(&cand(w), edges), "the path {:?} is split, but {:?} is clear of all barriers", path, cand(w));
        }
    }
    // The split is at the path point that is farthest from the fit.
    let c = cand(1.0);
    let d: Vec<f64> = (1..n - 1).map(|i| dist(at(&c, ts[i]), path[i])).collect();
    let best = (0..d.len()).max_by(|a, b| d[*a].partial_cmp(&d[*b]).unwrap()).unwrap();
    if (0..d.len()).any(|i| i != best && d[i] > d[best] - 1e-6 * (1.0 + d[best])) {
        *undecided = true;
        return Ok(());
    }
    let k = best + 1;
    let at = match out.iter().step_by(3).position(|q| *q == path[k]) {
        None => return Err(format!("the path {:?} is not split at {:?}, which is the farthest from the fit {:?}", path, path[k], c)),
        Some(p) => p * 3,
    };
    let dir = norm(norm(path[k] - path[k - 1]) + norm(path[k + 1] - path[k]));
    best_fit(edges, &path[..=k], d0, dir, &out[..=at], undecided)?;
    best_fit(edges, &path[k..], dir, d1, &out[at..], undecided)
}

fn alike(a: &[V], b: &[V]) -> bool {
    let size = a.iter().fold(0.0f64, |m, p| m.max(p.x.abs()).max(p.y.abs()));
    a.len() == b.len() && a.iter().zip(b).all(|(a, b)| dist(*a, *b) <= 1e-7 * size)
}
fn mirror(v: V, x: bool) -> V {
    if x {
        V { x: -v.x, y: v.y }
    } else {
        V { x: v.x, y: -v.y }
    }
}

struct BestFit;
impl Part for BestFit {
    type Case = SplineCase;
    const NAME: &'static str = "best-fit";
    fn cases(t: Tier) -> u64 {
        t.pick(1_000_000, 10_000_000)
    }
    fn strategy(t: Tier) -> BoxedStrategy<SplineCase> {
        Splines::strategy(t)
    }
    fn check(c: &SplineCase, cx: &mut Ctx) -> Check {
        let _frame = frame(c.frame, 6);
        let mut ps: Vec<Pt> = Vec::new();
        for p in &c.path {
            if !ps.contains(p) {
                ps.push(*p);
            }
        }
        if ps.len() < 2 {
            cx.label("one point (not run)");
            return Ok(());
        }
        let edges: Vec<(Pt, Pt)> = c.edges.iter().copied().filter(|e| e.0 != e.1).collect();
        let pe: Vec<Pedge_t> = edges.iter().map(|e| Pedge_t { a: f(e.0), b: f(e.1) }).collect();
        let path: Vec<V> = ps.iter().map(|p| f(*p)).collect();
        let vs = c.ev.map(|e| V { x: e.0 as f64 / 16.0, y: e.1 as f64 / 16.0 });
        let go = |pe: &[Pedge_t], path: &[V], vs: [V; 2]| {
            let mut evs = vs;
            let mut out = Ppoly_t { ps: vec![] };
            Proutespline(pe, &Ppoly_t { ps: path.to_vec() }, &mut evs, &mut out).map(|_| (out.ps, evs)).map_err(|_| "an error".to_string())
        };
        // The directions are normalised, so their lengths mean nothing.
        let (out, evs) = (go(&pe, &path, vs)?.0, vs.map(norm));
        ensure!(out.len() >= 4 && out.len() % 3 == 1 && out[0] == path[0] && out[out.len() - 1] == path[path.len() - 1], "output {:?}", out);
        let mut undecided = false;
        best_fit(&pe, &path, evs[0], evs[1], &out, &mut undecided)?;
        // The order of the barriers means nothing, and a mirrored input has a mirrored output.
        let rev: Vec<Pedge_t> = pe.iter().rev().cloned().collect();
        ensure_eq!(go(&rev, &path, vs)?.0, out, "output with the barriers in another order");
        for x in [false, true] {
            let me: Vec<Pedge_t> = pe.iter().map(|e| Pedge_t { a: mirror(e.a, x), b: mirror(e.b, x) }).collect();
            let mp: Vec<V> = path.iter().map(|p| mirror(*p, x)).collect();
            let mo: Vec<V> = out.iter().map(|p| mirror(*p, x)).collect();
            let got = go(&me, &mp, vs.map(|v| mirror(v, x)))?.0;
            if alike(&got, &mo) {
                continue;
            }
            // Rounding may decide between two ways that are equally good.
            let size = path.iter().fold(1e-300f64, |m, p| m.max(p.x.abs()).max(p.y.abs()));
            let mut stable = true;
            for k in 0..8u64 {
                let mut n = k;
                let mut jolt = |p: &V| {
                    n += 8;
                    let (a, b) = (mix(1, n) % 2001, mix(2, n) % 2001);
                    V { x: p.x + (a as f64 / 1000.0 - 1.0) * 1e-9 * size, y: p.y + (b as f64 / 1000.0 - 1.0) * 1e-9 * size }
                };
                let pe: Vec<Pedge_t> = pe.iter().map(|e| Pedge_t { a: jolt(&e.a), b: jolt(&e.b) }).collect();
                let path: Vec<V> = path.iter().map(|p| jolt(p)).collect();
                let o = go(&pe, &path, vs)?.0;
                stable &= o.len() == out.len() && o.iter().zip(&out).all(|(a, b)| dist(*a, *b) <= 1e-5 * size);
            }
            ensure!(!stable, "output for the mirrored input: got {:?}, expected {:?}", got, mo);
            cx.label("tie in the mirrored input");
        }
        cx.label_if(undecided, "partly undecided");
        cx.label_if(out.len() > 4, "several-pieces");
        cx.nt_if(path.len() >= 3 && edges.len() >= 2);
        Ok(())
    }
}

fn random_case(size: i64) -> BoxedStrategy<SplineCase> {
    random_case_of(size, 8, 2..7)
}
fn random_case_of(size: i64, barriers: usize, corners: std::ops::Range<usize>) -> BoxedStrategy<SplineCase> {
    let pt = move || (0..size, 0..size);
    let near = move || (pt(), (-size / 5..=size / 5, -size / 5..=size / 5)).prop_map(|(a, d)| (a, (a.0 + d.0, a.1 + d.1)));
    (vec(prop_oneof![(pt(), pt()).boxed(), near().boxed(), pt().prop_map(|a| (a, a)).boxed(), (pt(), -9i64..10).prop_map(|(a, d)| (a, (a.0, a.1 + d))).boxed(), (pt(), -9i64..10).prop_map(|(a, d)| (a, (a.0 + d, a.1))).boxed()], 0..barriers), vec(pt(), corners), any::<[(i8, i8); 2]>(), 0u8..6)
        .prop_map(|(edges, mut path, ev, k)| {
            if k == 2 {
                // a point, or several, twice in a row
                let i = (ev[0].0 as u8 as usize) % path.len();
                for _ in 0..=(ev[0].1 & 1) {
                    path.insert(i, path[i]);
                }
            }
            let m = if k == 3 { 1 << 20 } else { 1 };
            let ev = ev.map(|e| (e.0 as i32 * m, e.1 as i32 * m));
            SplineCase { edges, path, ev: if k == 0 { [(0, 0), (0, 0)] } else if k == 1 { [(0, 0), ev[1]] } else { ev }, frame: 0 }
        })
        .boxed()
}
/// The usual use: the shortest path in a polygon, and the polygon as barriers.
fn polygon_case(p: BoxedStrategy<(Vec<Pt>, Vec<Pt>)>) -> BoxedStrategy<SplineCase> {
    (p, any::<[(i8, i8); 2]>(), 0u8..4, any::<(u16, u16)>())
        .prop_map(|((ps, inner), ev, k, (i, j))| {
            let n = inner.len();
            let (s, t) = if n >= 2 && k != 3 { (inner[0], inner[n - 1]) } else { (inner[i as usize % n], inner[j as usize % n]) };
            let mut path = vec![s, t];
            if general_position(&ps) && side(&ps, s) == Side::In && side(&ps, t) == Side::In {
                if let Ok(Ok(r)) = catch(|| Pshortestpath(&poly(&ps), &[f(s), f(t)])) {
                    path = r.ps.iter().map(|p| (p.x as i64, p.y as i64)).collect();
                }
            }
            let n = ps.len();
            let edges = (0..n).map(|i| (ps[i], ps[(i + 1) % n])).collect();
            let ev = ev.map(|e| (e.0 as i32, e.1 as i32));
            SplineCase { edges, path, ev: if k == 0 { [(0, 0), (0, 0)] } else { ev }, frame: 0 }
        })
        .boxed()
}

struct Splines;
impl Part for Splines {
    type Case = SplineCase;
    const NAME: &'static str = "fitted-splines";
    fn cases(t: Tier) -> u64 {
        t.pick(1_000_000, 10_000_000)
    }
    fn strategy(t: Tier) -> BoxedStrategy<SplineCase> {
        let c = t.pick(16, 28);
        let inner = |p: BoxedStrategy<Vec<Pt>>| {
            (p, vec(any::<u64>(), 8))
                .prop_map(|(ps, r)| {
                    let at = crate::paths::inside_points(2);
                    let mut ins: Vec<Pt> = r.iter().map(|x| at(&ps, *x)).filter(|q| side(&ps, *q) == Side::In).collect();
                    if ins.is_empty() {
                        ins.push(ps[0]);
                    }
                    (ps, ins)
                })
                .boxed()
        };
        prop_oneof![
            3000 => random_case(30),
            3000 => random_case(200),
            1000 => random_case(2000),
            2000 => polygon_case(inner(polygon(100, 9))),
            2000 => polygon_case(inner(polygon(600, c))),
            5000 => polygon_case(corridors(20..200, c)),
            1000 => polygon_case(bends(60, c).prop_map(|(ps, e)| (ps, e.to_vec())).boxed()),
            4 => polygon_case(corridors(20..200, 160)),
            4 => random_case_of(600, 60, 8..60),
            4 => random_case_of(600, 4, 8..60),
            2 => random_case_of(2000, 400, 3..10),
            1 => random_case_of(2000, 2000, 3..10),
            2 => random_case_of(2000, 6, 60..600),
        ]
        .prop_flat_map(|c| (Just(c), frames()))
        .prop_map(|(c, frame)| SplineCase { frame, ..c })
        .boxed()
    }
    fn check(c: &SplineCase, cx: &mut Ctx) -> Check {
        let _frame = frame(c.frame, 6);
        let path = c.path.clone();
        if path.iter().all(|p| *p == path[0]) {
            cx.label("one point (not run)");
            return Ok(());
        }
        let edges = &c.edges;
        let pe: Vec<Pedge_t> = edges.iter().map(|e| Pedge_t { a: f(e.0), b: f(e.1) }).collect();
        let input = poly(&path);
        let vs = c.ev.map(|e| V { x: e.0 as f64 / 16.0, y: e.1 as f64 / 16.0 });
        let mut evs = vs;
        let mut out = Ppoly_t { ps: vec![V { x: 1.0, y: 2.0 }; (c.ev[0].0 as usize) % 3] };
        let r = Proutespline(&pe, &input, &mut evs, &mut out);
        ensure!(r.is_ok(), "an error");
        let o = &out.ps;
        for k in 0..2 {
            ensure!(dist(evs[k], norm(vs[k])) < 1e-9, "end vector {} becomes {:?}, expected {:?}", k, evs[k], norm(vs[k]));
        }
        ensure!(o.iter().all(|p| p.x.is_finite() && p.y.is_finite()), "output {:?}", o);
        ensure!(o.len() >= 4 && o.len() % 3 == 1 && o.len() <= 3 * (path.len() - 1) + 1, "{} output points for {} input points", o.len(), path.len());
        // Which input points are the joints? (Points may repeat: try every way.)
        let joints: Vec<V> = o.iter().step_by(3).copied().collect();
        let mut reach: Vec<Vec<bool>> = vec![vec![false; path.len()]; joints.len()];
        for (k, j) in joints.iter().enumerate() {
            for i in 0..path.len() {
                let here = f(path[i]) == *j;
                reach[k][i] = here && if k == 0 { i == 0 } else { (0..i).any(|h| reach[k - 1][h]) };
            }
        }
        ensure!(reach[joints.len() - 1][path.len() - 1], "the ends of the pieces {:?} are not input points in order, from the first to the last of {:?}", joints, path);
        let distinct = (0..path.len()).all(|i| !path[..i].contains(&path[i]));
        let size = path.iter().map(|p| geo::dist(*p, path[0])).fold(1.0, f64::max) * 4.0;
        ensure!(along(o[1] - o[0], evs[0], size), "the first tangent {:?} is not along {:?}", o[1] - o[0], evs[0]);
        let n = o.len();
        ensure!(along(o[n - 1] - o[n - 2], evs[1], size), "the last tangent {:?} is not along {:?}", o[n - 1] - o[n - 2], evs[1]);
        let mut bent = 0;
        for (k, sp) in o.windows(4).step_by(3).enumerate() {
            let straight = sp[0] == sp[1] && sp[2] == sp[3];
            if !straight {
                bent += 1;
            }
            let mut neighbours = true;
            if distinct {
                let i = path.iter().position(|p| f(*p) == sp[0]).unwrap();
                let j = path.iter().position(|p| f(*p) == sp[3]).unwrap();
                neighbours = j == i + 1;
                if k > 0 {
                    let d = norm(norm(f(path[i]) - f(path[i - 1])) + norm(f(path[i + 1]) - f(path[i])));
                    ensure!(along(sp[1] - sp[0], d, size), "at the joint {:?} the tangent {:?} is not along {:?}", sp[0], sp[1] - sp[0], d);
                    let q = &o[3 * k - 1];
                    ensure!(along(sp[0] - *q, d, size), "at the joint {:?} the tangent {:?} is not along {:?}", sp[0], sp[0] - *q, d);
                }
            }
            if straight && neighbours {
                continue;
            }
            for (e, p) in edges.iter().zip(&pe).filter(|(e, _)| e.0 != e.1) {
                if let Some(x) = crosses(sp, p.a, p.b) {
                    return Err(format!("the piece {:?} crosses the edge {:?} at {:?}", sp, e, x));
                }
            }
        }
        cx.label_if(edges.iter().any(|e| e.0 == e.1), "point barrier");
        cx.label_if(bent > 0, "curved");
        cx.label_if(o.len() > 4, "several-pieces");
        cx.nt_if(bent > 0 && edges.len() >= 2 && path.len() >= 3);
        Ok(())
    }
}

// ---------------------------------------------------------------- E01

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct WedgeCase {
    center: (i32, i32),
    /// in 1/16
    a: u32,
    b: u32,
    /// in degrees / 8
    from: i32,
    sweep: u32,
    /// the end angle is given that many turns too low
    #[serde(default)]
    under: u8,
    /// both angles are given with that many turns more
    #[serde(default)]
    turns: i16,
    /// everything is that many powers of two larger
    #[serde(default)]
    unit: i8,
}

#[derive(Debug, Clone)]
enum Call {
    Move(V),
    Line(V),
    Curve(V, V, V),
    End(bool),
}
#[derive(Default)]
struct Rec(Vec<Call>);
impl PathTarget for Rec {
    fn move_to(&mut self, p: V) {
        self.0.push(Call::Move(p));
    }
    fn line_to(&mut self, p: V) {
        self.0.push(Call::Line(p));
    }
    fn curve_to(&mut self, p1: V, p2: V, p3: V) {
        self.0.push(Call::Curve(p1, p2, p3));
    }
    fn end_path(&mut self, close: bool) {
        self.0.push(Call::End(close));
    }
}

fn turn(x: f64) -> f64 {
    // to -PI..PI
    let t = 2.0 * std::f64::consts::PI;
    x - t * (x / t).round()
}

struct Wedge;
impl Part for Wedge {
    type Case = WedgeCase;
    const NAME: &'static str = "wedge";
    fn cases(t: Tier) -> u64 {
        t.pick(500_000, 6_000_000)
    }
    fn strategy(_: Tier) -> BoxedStrategy<WedgeCase> {
        let axis = || prop_oneof![1u32..40, 16u32..1600, 100u32..40_000];
        let ratio = prop_oneof![1 => Just(0u8), 3 => Just(1), 1 => Just(2)];
        let from = prop_oneof![3 => (-16i32..=16).prop_map(|k| k * 180), 3 => -5760i32..5760];
        let sweep = prop_oneof![20 => 8u32..2872, 2 => 1u32..8, 2 => 2872u32..2880, 1 => Just(0u32), 10 => (1u32..=16).prop_map(|k| k * 180), 10 => Just(2880u32), 10 => Just(1440)];
        let under = prop_oneof![4 => Just(0u8), 1 => 1u8..4];
        let turns = prop_oneof![6 => Just(0i16), 1 => -3i16..4, 1 => -300i16..300];
        let unit = prop_oneof![4 => Just(0i8), 1 => -24i8..=20];
        ((-1000i32..1000, -1000i32..1000), axis(), axis(), ratio, from, sweep, under, turns, unit)
            .prop_map(|(center, a, b, r, from, sweep, under, turns, unit)| {
                let (a, b) = match r {
                    0 => (a, a),
                    1 => (a.max(b), a.min(b)),
                    _ => (a.min(b), a.max(b)),
                };
                // an empty wedge and a full turn differ by rounding only then
                let under = if sweep % 2880 == 0 { 0 } else { under };
                WedgeCase { center, a, b, from, sweep, under, turns: if sweep % 2880 == 0 { 0 } else { turns }, unit }
            })
            .boxed()
    }
    fn check(c: &WedgeCase, cx: &mut Ctx) -> Check {
        let unit = 2f64.powi(c.unit as i32);
        let (a, b) = (c.a as f64 / 16.0 * unit, c.b as f64 / 16.0 * unit);
        let ctr = V { x: c.center.0 as f64 * unit, y: c.center.1 as f64 * unit };
        let rad = |k: f64| (k / 8.0 + 360.0 * c.turns as f64) / 180.0 * std::f64::consts::PI;
        let (a0, a1) = (rad(c.from as f64), rad(c.from as f64 + c.sweep as f64 - 2880.0 * c.under as f64));
        let mut rec = Rec::default();
        ellipticWedge(ctr, a, b, a0, a1, &mut rec);
        let calls = &rec.0;
        let tol = 1e-9 * (unit + a.max(b) + ctr.x.abs() + ctr.y.abs());
        ensure!(calls.len() >= 4, "calls {:?}", calls);
        match (&calls[0], &calls[1]) {
            (Call::Move(p), Call::Line(_)) => ensure!(dist(*p, ctr) <= tol, "the path starts at {:?}, not at the center {:?}", p, ctr),
            _ => return Err(format!("the path starts with {:?}", &calls[..2])),
        }
        ensure!(matches!(calls[calls.len() - 1], Call::End(true)), "the path ends with {:?}", calls[calls.len() - 1]);
        let mut cur = match calls[1] {
            Call::Line(p) => p,
            _ => unreachable!(),
        };
        let dir = |p: V| (p.y - ctr.y).atan2(p.x - ctr.x);
        // the angle of a point on the circle that the ellipse is an image of
        let par = |p: V| ((p.y - ctr.y) / b).atan2((p.x - ctr.x) / a);
        let rel = |p: V| (((p.x - ctr.x) / a).powi(2) + ((p.y - ctr.y) / b).powi(2)).sqrt() - 1.0;
        let atol = 1e-7 + tol / a.min(b);
        ensure!(rel(cur).abs() <= atol, "the arc starts at {:?}, not on the ellipse", cur);
        let unit = |ang: f64| V { x: ang.cos() / a, y: ang.sin() / b };
        let e0 = unit(a0);
        let e1 = unit(a1);
        // expected parameter angles
        let (p0, p1) = ((e0.y).atan2(e0.x).sin_cos(), (e1.y).atan2(e1.x).sin_cos());
        let _ = (p0, p1);
        let q = |ang: f64| (ang.sin() / b).atan2(ang.cos() / a);
        ensure!(turn(par(cur) - q(a0)).abs() <= atol, "the arc starts at the angle {}, expected {}", dir(cur), a0);
        let mut swept = 0.0;
        let mut curves = 0;
        let mut worst: f64 = 0.0;
        for k in &calls[2..calls.len() - 1] {
            let (p1, p2, p3) = match k {
                Call::Curve(p1, p2, p3) => (*p1, *p2, *p3),
                x => return Err(format!("{:?} inside the arc", x)),
            };
            curves += 1;
            ensure!(rel(p3).abs() <= atol, "a piece ends at {:?}, not on the ellipse", p3);
            let total = turn(par(p3) - par(cur));
            ensure!((total > 0.0 || c.sweep == 0 && total == 0.0) && total <= std::f64::consts::FRAC_PI_2 + 1e-6, "a piece turns by {}", total);
            swept += total;
            // On the circle that the ellipse is an image of, a piece leaves and arrives
            // at right angles to the radius, so that the pieces join smoothly.
            let on = |p: V| V { x: (p.x - ctr.x) / a, y: (p.y - ctr.y) / b };
            for (at, from, to, what) in [(cur, cur, p1, "leaves"), (p3, p2, p3, "arrives")] {
                let n = on(at);
                let h = on(to) - on(from);
                let len = (h.x * h.x + h.y * h.y).sqrt();
                let radial = h.x * n.x + h.y * n.y;
                let tangent = n.x * h.y - n.y * h.x;
                ensure!(radial.abs() <= 1e-6 * len + 4.0 * atol && tangent >= -4.0 * atol, "a piece {} {:?} along {:?}, which is not along the ellipse", what, at, to - from);
            }
            let mut prev = par(cur);
            for i in 1..=8 {
                let t = i as f64 / 8.0;
                let p = at(&[cur, p1, p2, p3], t);
                worst = worst.max(rel(p).abs() * if c.b <= c.a { b } else { 1.0 });
                let here = par(p);
                ensure!(turn(here - prev) > -atol, "a piece turns back at {:?}", p);
                prev = here;
                ensure!(rel(p).abs() <= 3e-4, "the path is at {:?}, off the ellipse by {} of its radius", p, rel(p));
                if c.b <= c.a {
                    // not more than the distance from the point to the ellipse on its ray
                    let ray = dist(p, ctr);
                    let off = (ray - ray / (1.0 + rel(p))).abs();
                    // the distance is at least that, times the sine of the angle to the tangent
                    let th = par(p);
                    let (tx, ty) = (-a * th.sin(), b * th.cos());
                    let sine = ((p.x - ctr.x) * ty - (p.y - ctr.y) * tx).abs() / (ray * (tx * tx + ty * ty).sqrt());
                    ensure!(off * sine <= 2e-5 + tol, "the path is at {:?}, off the ellipse by {}", p, off * sine);
                }
            }
            cur = p3;
        }
        ensure!(turn(par(cur) - q(a1)).abs() <= atol, "the arc ends at the angle {}, expected {}", dir(cur), a1);
        let exp = if c.sweep == 2880 {
            2.0 * std::f64::consts::PI
        } else {
            let d = turn(q(a1) - q(a0));
            let d = if d < 0.0 { d + 2.0 * std::f64::consts::PI } else { d };
            d
        };
        ensure!((swept - exp).abs() <= 1e-6 + atol * 3.0, "the arc turns by {} in all, expected {}", swept, exp);

        // The same as one list of points.
        let mut pl = Ppoly_t { ps: vec![ctr; 3] };
        ellipticWedge(ctr, a, b, a0, a1, &mut pl);
        let mut want = vec![];
        for k in calls {
            match k {
                Call::Move(p) => want.push(*p),
                Call::Line(p) => {
                    let l = *want.last().unwrap();
                    want.extend([l, *p, *p]);
                }
                Call::Curve(p1, p2, p3) => want.extend([*p1, *p2, *p3]),
                Call::End(_) => {
                    let l = *want.last().unwrap();
                    want.extend([l, want[0], want[0]]);
                }
            }
        }
        ensure_eq!(pl.ps, want, "the path as a list of points");
        cx.label_if(c.b > c.a, "tall");
        cx.label_if(c.sweep == 2880, "full-turn");
        cx.label_if(c.sweep == 0, "empty");
        cx.label_if(c.under > 0, "end-angle-below-start");
        cx.nt_if(curves >= 4 && c.a != c.b);
        Ok(())
    }
}

/// Path calls, recorded by a polyline.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum PathOp {
    Move(Pt),
    Line(Pt),
    Curve(Pt, Pt, Pt),
    End(bool),
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct PathCase {
    before: Vec<Pt>,
    start: Pt,
    ops: Vec<PathOp>,
}
struct PathCalls;
impl Part for PathCalls {
    type Case = PathCase;
    const NAME: &'static str = "path-calls";
    fn cases(t: Tier) -> u64 {
        t.pick(200_000, 3_000_000)
    }
    fn strategy(_: Tier) -> BoxedStrategy<PathCase> {
        let pt = || prop_oneof![2 => (-3i64..4, -3i64..4), 1 => (-1_000_000i64..1_000_000, -1_000_000i64..1_000_000)];
        let op = prop_oneof![
            1 => pt().prop_map(PathOp::Move),
            4 => pt().prop_map(PathOp::Line),
            4 => (pt(), pt(), pt()).prop_map(|(a, b, c)| PathOp::Curve(a, b, c)),
            2 => any::<bool>().prop_map(PathOp::End),
        ];
        (vec(pt(), 0..5), pt(), vec(op, 0..12)).prop_map(|(before, start, ops)| PathCase { before, start, ops }).boxed()
    }
    fn check(c: &PathCase, cx: &mut Ctx) -> Check {
        let mut path = Ppoly_t { ps: c.before.iter().map(|p| f(*p)).collect() };
        let (mut lines, mut curves, mut closed) = (0, 0, 0);
        path.move_to(f(c.start));
        let mut m = vec![c.start];
        for o in &c.ops {
            let last = m[m.len() - 1];
            match o {
                PathOp::Move(p) => {
                    path.move_to(f(*p));
                    m = vec![*p];
                }
                PathOp::Line(p) => {
                    path.line_to(f(*p));
                    m.extend([last, *p, *p]);
                    lines += 1;
                }
                PathOp::Curve(a, b, p) => {
                    path.curve_to(f(*a), f(*b), f(*p));
                    m.extend([*a, *b, *p]);
                    curves += 1;
                }
                PathOp::End(close) => {
                    path.end_path(*close);
                    if *close {
                        m.extend([last, m[0], m[0]]);
                        closed += 1;
                    }
                }
            }
            let want: Vec<V> = m.iter().map(|p| f(*p)).collect();
            ensure_eq!(path.ps, want, "points after {:?}", o);
        }
        cx.nt_if(lines > 0 && curves > 0 && closed > 0);
        Ok(())
    }
}

// ---------------------------------------------------------------- E02

/// Ellipses with any orientation, through the hook.
#[cfg(feature = "hook_ellipse")]
mod arcs {
    use super::*;
    use trellis::common::ellipse::vp_hooks;

    #[derive(Clone, Debug, Serialize, Deserialize)]
    pub struct ArcCase {
        center: (i32, i32),
        /// in 1/16
        a: u32,
        b: u32,
        /// in degrees / 8
        theta: i32,
        from: i32,
        sweep: u32,
        line: bool,
        slice: bool,
        threshold: u8,
    }
    const TWO_PI: f64 = 2.0 * std::f64::consts::PI;

    pub struct Arc;
    impl Part for Arc {
        type Case = ArcCase;
        const NAME: &'static str = "arc";
        fn cases(t: Tier) -> u64 {
            t.pick(500_000, 6_000_000)
        }
        fn strategy(_: Tier) -> BoxedStrategy<ArcCase> {
            let axis = || prop_oneof![1u32..40, 16u32..1600, 100u32..40_000];
            let angle = || prop_oneof![2 => (-16i32..=16).prop_map(|k| k * 180), 3 => -2880i32..=2880, 1 => (-90i32..=90)];
            let sweep = prop_oneof![20 => 8u32..2872, 2 => 1u32..8, 4 => (1u32..16).prop_map(|k| k * 180), 3 => Just(2880u32)];
            ((-1000i32..1000, -1000i32..1000), axis(), axis(), 0u8..8, (angle(), angle()), sweep, any::<bool>(), any::<bool>(), 0u8..4)
                .prop_map(|(center, a, b, round, (theta, from), sweep, line, slice, threshold)| {
                    let (a, b) = (a.max(b), if round == 0 { a.max(b) } else { a.min(b) });
                    ArcCase { center, a, b, theta, from, sweep, line, slice, threshold }
                })
                .boxed()
        }
        fn check(c: &ArcCase, cx: &mut Ctx) -> Check {
            let (a, b) = (c.a as f64 / 16.0, c.b as f64 / 16.0);
            let ctr = V { x: c.center.0 as f64, y: c.center.1 as f64 };
            let rad = |k: i64| k as f64 / 8.0 / 180.0 * std::f64::consts::PI;
            let (th, l1, l2) = (rad(c.theta as i64), rad(c.from as i64), rad(c.from as i64 + c.sweep as i64));
            let e = vp_hooks::ellipse(ctr, a, b, th, l1, l2);
            let size = 1.0 + a + ctr.x.abs() + ctr.y.abs();
            let tol = 1e-9 * size;
            // where the ray in a direction from the center leaves the ellipse
            let ray = |l: f64| {
                let r = 1.0 / ((l.cos() / a).powi(2) + (l.sin() / b).powi(2)).sqrt();
                V { x: ctr.x + r * (th + l).cos(), y: ctr.y + r * (th + l).sin() }
            };
            // the angle on the circle that the ellipse is an image of
            let q = |l: f64| (l.sin() / b).atan2(l.cos() / a);
            let full = c.sweep == 2880;
            let sweep = if full { TWO_PI } else { (q(l2) - q(l1)).rem_euclid(TWO_PI) };
            let (p1, p2) = (ray(l1), ray(l2));
            // the position is less certain where the ellipse is thin
            let ptol = tol * (1.0 + a / b);
            ensure!(turn(e[0] - q(l1)).abs() <= 1e-9 && (e[1] - e[0] - sweep).abs() <= 1e-9, "the angles are {} to {}, expected {} and {} more", e[0], e[1], q(l1), sweep);
            let (g1, g2) = (V { x: e[2], y: e[3] }, V { x: e[4], y: e[5] });
            ensure!(dist(g1, p1) <= ptol, "the first point is {:?}, expected {:?}", g1, p1);
            ensure!(dist(g2, p2) <= ptol, "the last point is {:?}, expected {:?}", g2, p2);
            // foci
            let (f1, f2) = (V { x: e[6], y: e[7] }, V { x: e[8], y: e[9] });
            ensure!(dist((f1 + f2) / 2.0, ctr) <= tol, "the foci {:?} and {:?} are not around the center", f1, f2);
            let at_eta = |t: f64| V { x: ctr.x + a * t.cos() * th.cos() - b * t.sin() * th.sin(), y: ctr.y + a * t.cos() * th.sin() + b * t.sin() * th.cos() };
            for k in 0..6 {
                let p = at_eta(k as f64 * 1.1);
                ensure!((dist(p, f1) + dist(p, f2) - 2.0 * a).abs() <= 1e-7 * size, "the distances from {:?} to the foci {:?} and {:?} add up to {}, expected {}", p, f1, f2, dist(p, f1) + dist(p, f2), 2.0 * a);
            }
            // bounds: ends of the arc and those extreme points of the ellipse that are on it
            let t1 = q(l1);
            let mut pts = vec![p1, p2];
            let ex = f64::atan2(-b * th.sin(), a * th.cos());
            let ey = f64::atan2(b * th.cos(), a * th.sin());
            for t in [ex, ex + TWO_PI / 2.0, ey, ey + TWO_PI / 2.0] {
                if (t - t1).rem_euclid(TWO_PI) <= sweep {
                    pts.push(at_eta(t));
                }
            }
            let (mut lo, mut hi) = (pts[0], pts[0]);
            for p in &pts {
                lo = V { x: lo.x.min(p.x), y: lo.y.min(p.y) };
                hi = V { x: hi.x.max(p.x), y: hi.y.max(p.y) };
            }
            let got = [e[10], e[11], e[10] + e[12], e[11] + e[13]];
            for (g, w) in got.iter().zip([lo.x, lo.y, hi.x, hi.y]) {
                ensure!((g - w).abs() <= ptol, "the bounds are {:?}, expected {:?} to {:?}", got, lo, hi);
            }

            // The path.
            let degree = if c.line { 1 } else { 3 };
            let threshold = if c.line { a * [1e-4, 1e-3, 1e-2, 0.1][c.threshold as usize % 4] } else { [1e-5, 1e-3, 0.01, 0.5][c.threshold as usize % 4] };
            let mut rec = Rec::default();
            vp_hooks::path(ctr, (a, b), th, (l1, l2), degree, threshold, c.slice, &mut rec);
            let calls = &rec.0;
            let head = if c.slice { 2 } else { 1 };
            ensure!(calls.len() >= head + 2, "calls {:?}", calls);
            let mut cur = match (&calls[0], &calls[1], c.slice) {
                (Call::Move(m), Call::Line(p), true) if dist(*m, ctr) <= tol => *p,
                (Call::Move(p), _, false) => *p,
                _ => return Err(format!("the path starts with {:?}", &calls[..2])),
            };
            ensure!(matches!(calls[calls.len() - 1], Call::End(x) if x == c.slice), "the path ends with {:?}", calls[calls.len() - 1]);
            ensure!(dist(cur, p1) <= ptol, "the arc starts at {:?}, expected {:?}", cur, p1);
            let local = |p: V| {
                let d = p - ctr;
                V { x: (d.x * th.cos() + d.y * th.sin()) / a, y: (d.y * th.cos() - d.x * th.sin()) / b }
            };
            let par = |p: V| {
                let l = local(p);
                l.y.atan2(l.x)
            };
            let rel = |p: V| {
                let l = local(p);
                (l.x * l.x + l.y * l.y).sqrt() - 1.0
            };
            let atol = 1e-7 + ptol / b;
            let mut swept = 0.0;
            let mut pieces = 0;
            for k in &calls[head..calls.len() - 1] {
                let sp = match k {
                    Call::Curve(a, b, d) if !c.line => [cur, *a, *b, *d],
                    Call::Line(p) if c.line => [cur, cur + (*p - cur) / 3.0, *p - (*p - cur) / 3.0, *p],
                    x => return Err(format!("{:?} inside the arc", x)),
                };
                pieces += 1;
                ensure!(rel(sp[3]).abs() <= atol, "a piece ends at {:?}, not on the ellipse", sp[3]);
                let total = turn(par(sp[3]) - par(cur));
                ensure!(total > 0.0 && total <= TWO_PI / 4.0 + 1e-6, "a piece turns by {}", total);
                swept += total;
                for i in 1..8 {
                    let p = at(&sp, i as f64 / 8.0);
                    // the point in the same direction of the circle, and if that is too far, the nearest one
                    let mut off = dist(p, at_eta(par(p)));
                    if off > threshold {
                        let (mut t, mut step) = (par(p), total / 8.0);
                        while step > 1e-9 {
                            match [t - step, t + step].into_iter().find(|x| dist(p, at_eta(*x)) < off) {
                                Some(x) => {
                                    t = x;
                                    off = dist(p, at_eta(x));
                                }
                                None => step /= 2.0,
                            }
                        }
                    }
                    ensure!(off <= threshold * 1.01 + tol, "the path is at {:?}, off the ellipse by {}, more than {}", p, off, threshold);
                }
                cur = sp[3];
            }
            ensure!(dist(cur, p2) <= ptol + 1e-9 * a, "the arc ends at {:?}, expected {:?}", cur, p2);
            ensure!((swept - sweep).abs() <= 1e-6 + 3.0 * atol, "the arc turns by {}, expected {}", swept, sweep);

            let mut pl = Ppoly_t { ps: vec![ctr; 2] };
            vp_hooks::path(ctr, (a, b), th, (l1, l2), degree, threshold, c.slice, &mut pl);
            let ends = if c.slice { 2 } else { 0 };
            ensure_eq!(pl.ps.len(), 1 + 3 * (pieces + ends), "points of the path");
            cx.label_if(c.line, "lines");
            cx.label_if(c.slice, "slice");
            cx.label_if(full, "full turn");
            cx.nt_if(c.a != c.b && c.theta % 1440 != 0);
            Ok(())
        }
    }
}

pub fn props() -> Vec<PropDef> {
    #[allow(unused_mut)]
    let mut v = vec![
        PropDef {
            id: "P05",
            rule: "random paths and barriers, and shortest paths in random polygons and corridors with the polygon as barrier; the pieces are sampled and their crossings with the barriers found by bisection; non-trivial: a curved piece, three or more path points and two or more barriers",
            assumptions: &["barriers of length 0 are generated, but what crosses them is not decided", "neighbouring path points are different", "crossings within 0.05 of the ends of a barrier, grazing ones and ill-conditioned ones are not decided"],
            parts: vec![part::<Splines>()],
        },
        PropDef {
            id: "P09",
            rule: "the paths and barriers of P05; every piece against the least-squares fit of its part of the path, every split against the clear candidates, and the outputs for mirrored inputs and permuted barriers; non-trivial: three or more path points and two or more barriers",
            assumptions: &["path points are different, barriers have positive length", "nearly singular fits, ties, and candidates closer to a barrier than a sampling margin are not decided"],
            parts: vec![part::<BestFit>()],
        },
        PropDef {
            id: "P06",
            rule: "polynomials up to degree 3 from known roots (simple, multiple, complex pairs, tiny leading coefficients), from small leading coefficients with a far root, and from random coefficients with residuals and sign changes; non-trivial: degree two or three with well separated roots, or with a sign change",
            assumptions: &["roots at most 100 in size; roots closer than 1 % of that are only decided approximately"],
            parts: vec![part::<Roots>(), part::<AnyCubic>(), part::<DoubleRoots>(), part::<FarRoot>()],
        },
        PropDef {
            id: "E01",
            rule: "random centers, axes, start angles and sweeps (also empty ones, a half and a full turn, and end angles given below the start angle); every piece is sampled; non-trivial: four or more pieces, and not a circle; and random path calls on a polyline against a list of points; non-trivial: lines, curves and closing ends",
            assumptions: &["both axes are positive; sweeps up to a full turn", "the distance to the ellipse is only decided to 2e-5 when the first axis is not the smaller one"],
            parts: vec![part::<Wedge>(), part::<PathCalls>()],
        },
    ];
    #[cfg(feature = "hook_ellipse")]
    v.push(PropDef {
        id: "E02",
        rule: "random ellipses (first axis not the smaller one) of any orientation, arcs from any angle, as lines and as cubic curves, with and without the center, with four thresholds; every piece is sampled; non-trivial: not a circle, and not parallel to the axes of the plane",
        assumptions: &["the first axis is not the smaller one", "sweeps of more than 0 up to a full turn", "called through a hook, since the functions are private"],
        parts: vec![part::<arcs::Arc>()],
    });
    v
}
