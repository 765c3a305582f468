//! Exact integer geometry and polygon generators.
use proptest::collection::vec;
use proptest::prelude::*;
use trellis::polyline::Ppoly_t;
use trellis::vec2::Vec2;

pub type Pt = (i64, i64);

/// How the integer coordinates of a case are laid onto the real plane. The unit is a power
/// of two, so that everything stays exact.
#[derive(Clone, Copy, Debug)]
pub struct Frame {
    unit: f64,
    off: Pt,
    /// new x and y in terms of x and y; of determinant 1
    map: [i64; 4],
}
const FLAT: Frame = Frame { unit: 1.0, off: (0, 0), map: [1, 0, 0, 1] };
const MAPS: [[i64; 4]; 8] = [
    [1, 1 << 20, 0, 1],
    [1, 0, 1 << 20, 1],
    [1, -(1 << 20), 0, 1],
    [0, -1, 1, 0],
    [-1, 0, 0, -1],
    [4097, 4096, 1, 1],
    [1, -3, -1000, 3001],
    [0, 1, -1, 1 << 22],
];
const UNITS: [f64; 10] = [1.0, 0.5, 0.125, 0.25, 4.0, 16.0, 0.015625, 1024.0, 1.0 / 1048576.0, 1048576.0];
/// Where small units are no use.
const WIDE: [f64; 16] = [1.0, 0.5, 0.125, 0.25, 4.0, 16.0, 0.015625, 1024.0, 1.0, 0.5, 0.125, 0.25, 4.0, 1024.0, 1048576.0, 1099511627776.0];
const OFFS: [Pt; 8] = [(0, 0), (-50, -50), (-1000, 7), (13, -600), (-20, -20), (700, 333), (-100_000, 50_001), (-5, 0)];
thread_local! {
    static FRAME: std::cell::Cell<Frame> = const { std::cell::Cell::new(FLAT) };
}
/// Ends the use of a frame.
pub struct InFrame;
impl Drop for InFrame {
    fn drop(&mut self) {
        FRAME.set(FLAT);
    }
}
/// From here on, `f`, `back`, `poly` and `dist` use the frame of this number (0: unchanged).
/// `units` of the scales are allowed; with 16, the large ones instead.
#[must_use]
pub fn frame(n: u8, units: usize) -> InFrame {
    let n = n as usize;
    FRAME.set(Frame { unit: if units == 16 { WIDE[n % 16] } else { UNITS[n % 16 % units] }, off: OFFS[n / 16 % OFFS.len()], ..FLAT });
    InFrame
}
/// The same, where half of the frames are turned or sheared (by factors up to 2^22) instead
/// of moved. All turns and areas stay what they are; distances do not.
#[must_use]
pub fn warped_frame(n: u8, units: usize) -> InFrame {
    let r = frame(n, units);
    if n >= 128 {
        FRAME.set(Frame { off: (0, 0), map: MAPS[n as usize / 16 % 8], ..FRAME.get() });
    }
    r
}
pub fn unit() -> f64 {
    FRAME.get().unit
}
pub fn frames() -> BoxedStrategy<u8> {
    prop_oneof![2 => Just(0u8), 1 => any::<u8>()].boxed()
}
pub fn f(p: Pt) -> Vec2<f64> {
    let m = FRAME.get();
    let (x, y) = (p.0 + m.off.0, p.1 + m.off.1);
    Vec2 { x: (x * m.map[0] + y * m.map[1]) as f64 * m.unit, y: (x * m.map[2] + y * m.map[3]) as f64 * m.unit }
}
/// The inverse of `f`.
pub fn back(p: Vec2<f64>) -> Option<Pt> {
    let m = FRAME.get();
    let (x, y) = ((p.x / m.unit) as i64, (p.y / m.unit) as i64);
    let q = (
        x.wrapping_mul(m.map[3]).wrapping_sub(y.wrapping_mul(m.map[1])).wrapping_sub(m.off.0),
        y.wrapping_mul(m.map[0]).wrapping_sub(x.wrapping_mul(m.map[2])).wrapping_sub(m.off.1),
    );
    if q.0.unsigned_abs() > 1 << 40 || q.1.unsigned_abs() > 1 << 40 {
        return None;
    }
    if f(q) == p {
        Some(q)
    } else {
        None
    }
}
pub fn poly(ps: &[Pt]) -> Ppoly_t {
    Ppoly_t { ps: ps.iter().map(|p| f(*p)).collect() }
}
/// Positive: a, b, c turn counterclockwise (y grows upwards).
pub fn cross(a: Pt, b: Pt, c: Pt) -> i64 {
    (b.0 - a.0) * (c.1 - a.1) - (b.1 - a.1) * (c.0 - a.0)
}
pub fn orient(a: Pt, b: Pt, c: Pt) -> i64 {
    cross(a, b, c).signum()
}
/// c is strictly between a and b, on the segment.
pub fn on_open(a: Pt, b: Pt, c: Pt) -> bool {
    cross(a, b, c) == 0 && c != a && c != b && on_box(a, b, c)
}
fn on_box(a: Pt, b: Pt, c: Pt) -> bool {
    c.0 >= a.0.min(b.0) && c.0 <= a.0.max(b.0) && c.1 >= a.1.min(b.1) && c.1 <= a.1.max(b.1)
}
pub fn on_closed(a: Pt, b: Pt, c: Pt) -> bool {
    cross(a, b, c) == 0 && on_box(a, b, c)
}
/// The open segments cross in one point that is inside both.
pub fn proper(a: Pt, b: Pt, c: Pt, d: Pt) -> bool {
    orient(a, b, c) * orient(a, b, d) < 0 && orient(c, d, a) * orient(c, d, b) < 0
}
/// The closed segments have a point in common.
pub fn touch(a: Pt, b: Pt, c: Pt, d: Pt) -> bool {
    proper(a, b, c, d) || on_closed(a, b, c) || on_closed(a, b, d) || on_closed(c, d, a) || on_closed(c, d, b)
}
pub fn area2(ps: &[Pt]) -> i64 {
    let n = ps.len();
    (0..n).map(|i| ps[i].0 * ps[(i + 1) % n].1 - ps[(i + 1) % n].0 * ps[i].1).sum()
}
/// Neighbouring edges share their endpoint only, others do not touch.
pub fn simple(ps: &[Pt]) -> bool {
    let n = ps.len();
    if n < 3 {
        return false;
    }
    for i in 0..n {
        let (a, b) = (ps[i], ps[(i + 1) % n]);
        if a == b {
            return false;
        }
        let c = ps[(i + 2) % n];
        if cross(a, b, c) == 0 && (on_closed(a, b, c) || on_closed(b, c, a)) {
            return false;
        }
        for j in i + 2..n {
            if (j + 1) % n == i {
                continue;
            }
            if touch(a, b, ps[j], ps[(j + 1) % n]) {
                return false;
            }
        }
    }
    true
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Side {
    In,
    On,
    Out,
}
/// Where q is with respect to a simple polygon.
pub fn side(ps: &[Pt], q: Pt) -> Side {
    let n = ps.len();
    let mut inside = false;
    for i in 0..n {
        let (a, b) = (ps[i], ps[(i + 1) % n]);
        if on_closed(a, b, q) {
            return Side::On;
        }
        if (a.1 > q.1) != (b.1 > q.1) {
            // is the edge, at the height of q, to the right of q?
            let c = cross(a, b, q);
            if (b.1 > a.1) == (c > 0) {
                inside = !inside;
            }
        }
    }
    if inside {
        Side::In
    } else {
        Side::Out
    }
}
pub fn dist(a: Pt, b: Pt) -> f64 {
    let m = FRAME.get();
    let (x, y) = (a.0 - b.0, a.1 - b.1);
    let (x, y) = ((x * m.map[0] + y * m.map[1]) as f64, (x * m.map[2] + y * m.map[3]) as f64);
    (x * x + y * y).sqrt() * m.unit
}
pub fn hull(mut p: Vec<Pt>) -> Vec<Pt> {
    p.sort();
    p.dedup();
    if p.len() < 3 {
        return p;
    }
    let half = |it: &mut dyn Iterator<Item = &Pt>| {
        let mut h: Vec<Pt> = Vec::new();
        for &q in it {
            while h.len() >= 2 && cross(h[h.len() - 2], h[h.len() - 1], q) <= 0 {
                h.pop();
            }
            h.push(q);
        }
        h.pop();
        h
    };
    let mut lo = half(&mut p.iter());
    let up = half(&mut p.iter().rev());
    lo.extend(up);
    lo // counterclockwise
}
pub fn general_position(ps: &[Pt]) -> bool {
    let n = ps.len();
    for i in 0..n {
        for j in i + 1..n {
            if ps[i] == ps[j] {
                return false;
            }
            for k in j + 1..n {
                if cross(ps[i], ps[j], ps[k]) == 0 {
                    return false;
                }
            }
        }
    }
    true
}

/// Orders points to a simple polygon by taking out crossings, or gives up.
pub fn untangle(mut ps: Vec<Pt>) -> Option<Vec<Pt>> {
    let n = ps.len();
    for _ in 0..400 {
        let mut changed = false;
        'l: for i in 0..n {
            for j in i + 2..n {
                if (j + 1) % n == i {
                    continue;
                }
                if touch(ps[i], ps[i + 1], ps[j], ps[(j + 1) % n]) {
                    ps[i + 1..=j].reverse();
                    changed = true;
                    break 'l;
                }
            }
        }
        if !changed {
            break;
        }
    }
    if simple(&ps) {
        Some(ps)
    } else {
        None
    }
}
/// Orders points by angle around their middle.
pub fn star(ps: Vec<Pt>) -> Option<Vec<Pt>> {
    let n = ps.len() as i64;
    let c = (ps.iter().map(|p| p.0).sum::<i64>(), ps.iter().map(|p| p.1).sum::<i64>());
    let mut v: Vec<(f64, Pt)> = ps.iter().map(|p| (((p.1 * n - c.1) as f64).atan2((p.0 * n - c.0) as f64), *p)).collect();
    v.sort_by(|a, b| a.partial_cmp(b).unwrap());
    let ps: Vec<Pt> = v.into_iter().map(|x| x.1).collect();
    if simple(&ps) {
        Some(ps)
    } else {
        None
    }
}
/// A corridor that turns: the outline of a path with right angles or slopes.
pub fn comb(xs: &[i64], hs: &[i64]) -> Vec<Pt> {
    // teeth along x, between a low and a high broken line
    let mut lo = Vec::new();
    let mut hi = Vec::new();
    let mut x = 0;
    for (i, (d, h)) in xs.iter().zip(hs).enumerate() {
        lo.push((x, if i % 2 == 0 { 0 } else { *h }));
        hi.push((x + (d * 3) / 7, if i % 2 == 0 { 5 + h / 3 } else { *h + 5 }));
        x += d;
    }
    hi.reverse();
    lo.extend(hi);
    lo
}

/// The outline of a self-avoiding walk on a grid whose cells have this size, and
/// the walk. `jit` moves the corners a little.
pub fn corridor(cell: i64, turns: &[u8], jit: &[(i8, i8)]) -> (Vec<Pt>, Vec<Pt>) {
    const D: [Pt; 4] = [(1, 0), (0, 1), (-1, 0), (0, -1)];
    let mut walk = vec![(0i64, 0i64)];
    let mut dirs: Vec<usize> = Vec::new();
    for (i, t) in turns.iter().enumerate() {
        let last = *walk.last().unwrap();
        let d0 = dirs.last().copied().unwrap_or((*t % 4) as usize);
        // straight on, left or right; another one if that cell is taken
        let want = [0usize, 1, 3, 1, 3][*t as usize % 5];
        let order = if i == 0 { [0, 0, 0] } else { [want, (want + 1 + (want == 1) as usize) % 4, 4 - want.min(3)] };
        for k in order.iter() {
            let d = (d0 + k) % 4;
            if i > 0 && (d + 2) % 4 == d0 {
                continue;
            }
            let c = (last.0 + D[d].0, last.1 + D[d].1);
            if !walk.contains(&c) {
                walk.push(c);
                dirs.push(d);
                break;
            }
        }
        if walk.len() == i + 1 {
            break;
        }
    }
    let (h, j) = ((cell * 3 / 10).max(2), (cell / 8).max(1));
    let mut left = Vec::new();
    let mut right = Vec::new();
    let n = walk.len();
    if n < 2 {
        return (vec![(0, 0), (cell, 0), (0, cell)], vec![(cell / 4, cell / 4), (cell / 3, cell / 3)]);
    }
    for i in 0..n {
        let c = (walk[i].0 * cell, walk[i].1 * cell);
        let (din, dout) = (D[dirs[i.max(1) - 1]], D[dirs[i.min(n - 2)]]);
        // to the left of both directions; at the ends a bit further
        let mut off = if din == dout { (-din.1 * h, din.0 * h) } else { ((-din.1 - dout.1) * h, (din.0 + dout.0) * h) };
        let end = if i == 0 { (-dout.0 * h, -dout.1 * h) } else if i == n - 1 { (din.0 * h, din.1 * h) } else { (0, 0) };
        let jj = |k: usize| {
            let v = jit[k % jit.len()];
            (v.0 as i64 % (j + 1), v.1 as i64 % (j + 1))
        };
        let (a, b) = (jj(2 * i), jj(2 * i + 1));
        left.push((c.0 + off.0 + end.0 + a.0, c.1 + off.1 + end.1 + a.1));
        off = (-off.0, -off.1);
        right.push((c.0 + off.0 + end.0 + b.0, c.1 + off.1 + end.1 + b.1));
    }
    left.reverse();
    right.extend(left);
    (right, walk.iter().map(|w| (w.0 * cell, w.1 * cell)).collect())
}

/// A corridor, its walk, and the number of its corners limited to `max`.
pub fn corridors(cell: std::ops::Range<i64>, max: usize) -> BoxedStrategy<(Vec<Pt>, Vec<Pt>)> {
    (cell, vec(any::<u8>(), 2..=(max / 2).max(3)), vec(any::<(i8, i8)>(), 5..30)).prop_map(|(cell, turns, jit)| corridor(cell, &turns, &jit)).boxed()
}

/// Passages around a bend: nearly all the corners are on the inner side, all of them on the way
/// from one end of the passage to the other, which are given too.
pub fn bends(size: i64, max: usize) -> BoxedStrategy<(Vec<Pt>, [Pt; 2])> {
    (vec((0..=size, -size..=size), 2..max), (1..=size, 1..=size, 1..=size, 1..=size), vec((-2i64..3, -2i64..3), 4), (0u8..8, 0usize..64, any::<bool>()))
        .prop_map(|(mut es, g, d, (turn, by, rev))| {
            es.retain(|e| e.0 > 0 || e.1 > 0);
            es.sort_by(|a, b| (a.0 * b.1).cmp(&(a.1 * b.0)));
            let mut es2: Vec<Pt> = Vec::new();
            for e in es {
                match es2.last_mut() {
                    // Edges of the same direction become one.
                    Some(l) if l.0 * e.1 == l.1 * e.0 => *l = (l.0 + e.0, l.1 + e.1),
                    _ => es2.push(e),
                }
            }
            let mut ps = vec![(0, 0)];
            for e in es2 {
                let l = ps[ps.len() - 1];
                ps.push((l.0 + e.0, l.1 + e.1));
            }
            let end = ps[ps.len() - 1];
            let top = ps.iter().map(|p| p.1).max().unwrap();
            ps.push((end.0 + g.0, end.1 + d[0].1));
            ps.push((end.0 + g.1 + d[1].0, top + g.2 + d[1].1));
            ps.push((d[2].0 - g.3, top + g.2 + d[2].1));
            ps.push((-g.3, d[3].1));
            let ends = [(-(1 + d[0].0.abs()).min(g.3), d[2].0.abs()), (end.0 + (1 + d[1].0.abs()).min(g.0), end.1 + d[3].0.abs())];
            let tf = |p: Pt| {
                let q = if turn & 1 != 0 { (p.1, p.0) } else { p };
                (if turn & 2 != 0 { -q.0 } else { q.0 }, if turn & 4 != 0 { -q.1 } else { q.1 })
            };
            let mut ps = rotate(ps.into_iter().map(tf).collect(), by);
            if rev {
                ps.reverse();
            }
            (ps, ends.map(tf))
        })
        .prop_filter("not simple", |c| simple(&c.0))
        .boxed()
}

pub fn ccw(mut ps: Vec<Pt>) -> Vec<Pt> {
    if area2(&ps) < 0 {
        ps.reverse();
    }
    ps
}
pub fn cw(mut ps: Vec<Pt>) -> Vec<Pt> {
    if area2(&ps) > 0 {
        ps.reverse();
    }
    ps
}
pub fn rotate(mut ps: Vec<Pt>, by: usize) -> Vec<Pt> {
    let n = ps.len();
    if n > 0 {
        ps.rotate_left(by % n);
    }
    ps
}

/// Simple polygons of 3..=max vertices, coordinates in 0..size, any direction, any first vertex.
pub fn polygon(size: i64, max: usize) -> BoxedStrategy<Vec<Pt>> {
    let pts = move || vec((0..size, 0..size), 3..=max);
    prop_oneof![
        2 => pts().prop_map(hull),
        3 => pts().prop_map(|p| star(p.clone()).unwrap_or_else(|| hull(p))),
        5 => pts().prop_map(|p| untangle(p.clone()).unwrap_or_else(|| hull(p))),
        2 => corridors((size / 5).max(9)..(size / 3).max(12), max).prop_map(|c| {
            let p = c.0;
            let (x, y) = (p.iter().map(|p| p.0).min().unwrap(), p.iter().map(|p| p.1).min().unwrap());
            let p: Vec<Pt> = p.into_iter().map(|p| (p.0 - x, p.1 - y)).collect();
            if simple(&p) { p } else { hull(p) }
        }),
        2 => (vec(1i64..10, 2..=(max / 2).max(3)), vec(0i64..30, max)).prop_map(|(xs, hs)| comb(&xs, &hs)).prop_map(|p| if simple(&p) { p } else { hull(p) }),
    ]
    .prop_filter_map("fewer than three corners", |p| if simple(&p) { Some(p) } else { None })
    .prop_flat_map(|p| (Just(p), any::<bool>(), 0usize..64))
    .prop_map(|(mut p, rev, by)| {
        if rev {
            p.reverse();
        }
        rotate(p, by)
    })
    .boxed()
}

/// Simple polygons in which many corners are on common lines: small grids, right angles,
/// and corners in the middle of straight sides.
pub fn aligned(max: usize) -> BoxedStrategy<Vec<Pt>> {
    let small = prop_oneof![polygon(5, max), polygon(9, max), polygon(16, max)];
    let right = (2i64..40, vec(any::<u8>(), 2..=(max / 2).max(3))).prop_map(|(cell, turns)| {
        let p = corridor(cell * 10, &turns, &[(0, 0)]).0;
        let (x, y) = (p.iter().map(|p| p.0).min().unwrap(), p.iter().map(|p| p.1).min().unwrap());
        let p: Vec<Pt> = p.into_iter().map(|p| (p.0 - x, p.1 - y)).collect();
        if simple(&p) { p } else { hull(p) }
    });
    let mixed = (prop_oneof![3 => small, 3 => right, 1 => polygon(100, max)], any::<u32>(), 1i64..4, any::<bool>(), 0usize..64);
    mixed
        .prop_map(move |(p, split, parts, rev, by)| {
            let n = p.len();
            let mut r = Vec::new();
            for i in 0..n {
                let (a, b) = (p[i], p[(i + 1) % n]);
                // all coordinates are scaled by twelve, so that sides can be halved and so on
                let at = |k: i64, m: i64| (a.0 * 12 + (b.0 - a.0) * 12 / m * k, a.1 * 12 + (b.1 - a.1) * 12 / m * k);
                r.push(at(0, 1));
                if split >> (i % 32) & 1 == 1 && r.len() + n - i < max + 4 {
                    for k in 1..=parts {
                        r.push(at(k, parts + 1));
                    }
                }
            }
            if rev {
                r.reverse();
            }
            rotate(r, by)
        })
        .prop_filter("not simple", |p| simple(p))
        .boxed()
}
