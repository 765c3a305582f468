//! Boxes, numbers, vectors, colours, arrays.
use crate::core::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use trellis::common::arith;
use trellis::common::geom::*;
use trellis::math;
use trellis::pathplan::array2::{allocArray, Array2};
use trellis::vec2::Vec2;

type B = (i32, i32, i32, i32); // x0, y0, x1, y1

// ---------------------------------------------------------------- B01

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct BoxCase {
    boxes: Vec<B>,
    points: Vec<(i32, i32)>,
    /// how the numbers are mapped to coordinates, see `coordinate`
    unit: u8,
}

/// Strictly rising in `x`: only the order of coordinates matters to a box.
fn coordinate(unit: u8, x: i32) -> f64 {
    match unit % 9 {
        0 => x as f64,
        1 => x as f64 * 0.25,
        2 => x as f64 * 1024.0,
        // neighbouring numbers, at 1000 and around 0
        3 => f64::from_bits((1000.0f64.to_bits() as i64 + x as i64) as u64),
        4 => f64::from_bits((x as i64).unsigned_abs()) * (x as f64).signum(),
        5 => x as f64 * 2f64.powi(-70) - 1e-6,
        6 => x as f64 * 2f64.powi(1000),
        7 => 16777216.0 + x as f64 / 16.0,
        // boxes without bounds
        _ if x <= -4 => f64::NEG_INFINITY,
        _ if x >= 4 => f64::INFINITY,
        _ => x as f64,
    }
}

struct Boxes;
impl Part for Boxes {
    type Case = BoxCase;
    const NAME: &'static str = "boxes";
    fn cases(t: Tier) -> u64 {
        t.pick(1_000_000, 20_000_000)
    }
    fn strategy(_: Tier) -> BoxedStrategy<BoxCase> {
        let set = |s: i32| {
            let b = ((-s..=s, -s..=s), (-s..=s, -s..=s)).prop_map(|((a, b), (c, d))| (a.min(b), c.min(d), a.max(b), c.max(d)));
            (vec(b, 2..5), vec((-s..=s, -s..=s), 1..6)).boxed()
        };
        (prop_oneof![3 => set(4), 2 => set(10), 1 => set(1_000_000)], prop_oneof![2 => 0u8..3, 1 => 3u8..9]).prop_map(|((boxes, points), unit)| BoxCase { boxes, points, unit }).boxed()
    }
    fn check(c: &BoxCase, cx: &mut Ctx) -> Check {
        // numbers beyond those map to the same infinity
        let cut = |x: i32| if c.unit % 9 == 8 { x.clamp(-4, 4) } else { x };
        let c = &BoxCase {
            boxes: c.boxes.iter().map(|b| (cut(b.0), cut(b.1), cut(b.2), cut(b.3))).collect(),
            points: c.points.iter().map(|p| (cut(p.0), cut(p.1))).collect(),
            unit: c.unit,
        };
        let u = |x: i32| coordinate(c.unit, x);
        let bf = |b: &B| boxf { LL: Vec2 { x: u(b.0), y: u(b.1) }, UR: Vec2 { x: u(b.2), y: u(b.3) } };
        let pf = |p: &(i32, i32)| Vec2 { x: u(p.0), y: u(p.1) };
        let same = |b: &boxf, e: &B| b.LL == pf(&(e.0, e.1)) && b.UR == pf(&(e.2, e.3));
        let show = |b: &boxf| format!("{:?} - {:?}", b.LL, b.UR);
        let has = |b: &B, p: &(i32, i32)| b.0 <= p.0 && p.0 <= b.2 && b.1 <= p.1 && p.1 <= b.3;
        let (mut ins, mut outs, mut meet) = (0, 0, 0);
        for b in &c.boxes {
            for p in &c.points {
                let e = has(b, p);
                ensure_eq!(INSIDE(pf(p), &bf(b)), e, "INSIDE({:?}, {:?})", p, b);
                if e {
                    ins += 1
                } else {
                    outs += 1
                }
                let mut x = bf(b);
                EXPANDBP(&mut x, pf(p));
                let e = (b.0.min(p.0), b.1.min(p.1), b.2.max(p.0), b.3.max(p.1));
                ensure!(same(&x, &e), "EXPANDBP({:?}, {:?}) gives {}, expected {:?}", b, p, show(&x), e);
            }
            for d in &c.boxes {
                // the boxes have a common point, on the border at least
                let overlap = b.0.max(d.0) <= b.2.min(d.2) && b.1.max(d.1) <= b.3.min(d.3);
                ensure_eq!(OVERLAP(&bf(b), &bf(d)), overlap, "OVERLAP({:?}, {:?})", b, d);
                let contains = has(b, &(d.0, d.1)) && has(b, &(d.2, d.3));
                ensure_eq!(CONTAINS(&bf(b), &bf(d)), contains, "CONTAINS({:?}, {:?})", b, d);
                let mut x = bf(b);
                EXPANDBB(&mut x, &bf(d));
                let e = (b.0.min(d.0), b.1.min(d.1), b.2.max(d.2), b.3.max(d.3));
                ensure!(same(&x, &e), "EXPANDBB({:?}, {:?}) gives {}, expected {:?}", b, d, show(&x), e);
                if overlap {
                    let mut x = bf(b);
                    CLIPBB(&mut x, &bf(d));
                    let e = (b.0.max(d.0), b.1.max(d.1), b.2.min(d.2), b.3.min(d.3));
                    ensure!(same(&x, &e), "CLIPBB({:?}, {:?}) gives {}, expected {:?}", b, d, show(&x), e);
                    meet += 1;
                }
            }
            // integer boxes and back
            let bi = boxi { LL: Vec2 { x: b.0, y: b.1 }, UR: Vec2 { x: b.2, y: b.3 } };
            let x = B2BF(&bi);
            ensure!(x.LL == Vec2 { x: b.0 as f64, y: b.1 as f64 } && x.UR == Vec2 { x: b.2 as f64, y: b.3 as f64 }, "B2BF({:?}) gives {}", b, show(&x));
            let y = BF2B(&x);
            ensure!(y.LL == bi.LL && y.UR == bi.UR, "BF2B(B2BF({:?})) gives {:?} - {:?}", b, y.LL, y.UR);
        }
        // growing from nothing: a box whose lower corner is above every coordinate
        let mut x = boxf { LL: Vec2 { x: f64::INFINITY, y: f64::INFINITY }, UR: Vec2 { x: f64::NEG_INFINITY, y: f64::NEG_INFINITY } };
        let mut y = boxf { LL: x.LL, UR: x.UR };
        for p in &c.points {
            EXPANDBP(&mut x, pf(p));
        }
        for b in &c.boxes {
            EXPANDBB(&mut y, &bf(b));
        }
        let all = |f: &dyn Fn(&(i32, i32)) -> i32, up: bool| c.points.iter().map(|p| f(p)).fold(None, |m: Option<i32>, v| Some(m.map_or(v, |m| if up { m.max(v) } else { m.min(v) }))).unwrap_or(0);
        let e = (all(&|p| p.0, false), all(&|p| p.1, false), all(&|p| p.0, true), all(&|p| p.1, true));
        if !c.points.is_empty() {
            ensure!(same(&x, &e), "an empty box expanded by {:?} is {}, expected {:?}", c.points, show(&x), e);
        }
        if let Some(first) = c.boxes.first() {
            let e = c.boxes.iter().fold(*first, |e, d| (e.0.min(d.0), e.1.min(d.1), e.2.max(d.2), e.3.max(d.3)));
            ensure!(same(&y, &e), "an empty box expanded by {:?} is {}, expected {:?}", c.boxes, show(&y), e);
        }
        cx.nt_if(ins >= 1 && outs >= 1 && meet > c.boxes.len());
        Ok(())
    }
}

// ---------------------------------------------------------------- B02

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct NumCase {
    a: (i32, i32),
    b: (i32, i32),
    c: i32,
    unit: u8,
    ints: (i16, i16, i16, i16, i16),
    /// the power of two that distances are checked at
    #[serde(default)]
    power: i16,
}
struct Numbers;
impl Part for Numbers {
    type Case = NumCase;
    const NAME: &'static str = "numbers";
    fn cases(t: Tier) -> u64 {
        t.pick(1_500_000, 30_000_000)
    }
    fn strategy(_: Tier) -> BoxedStrategy<NumCase> {
        let x = || prop_oneof![4 => -6i32..=6, 4 => -200i32..=200, 2 => -1_000_000i32..=1_000_000, 1 => any::<i32>()];
        let power = prop_oneof![2 => Just(0i16), 1 => -100i16..=100];
        ((x(), x()), (x(), x()), x(), 0u8..7, any::<(i16, i16, i16, i16, i16)>(), power)
            .prop_map(|(a, b, c, unit, ints, power)| NumCase { a, b, c, unit, ints, power })
            .boxed()
    }
    fn check(c: &NumCase, cx: &mut Ctx) -> Check {
        let den = [1i64, 2, 4, 8, 16, 64, 1024][c.unit as usize % 7];
        let g = |x: i32| x as f64 / den as f64;
        let (ax, ay, bx, by, k) = (g(c.a.0), g(c.a.1), g(c.b.0), g(c.b.1), g(c.c));
        let (p, q) = (Vec2 { x: ax, y: ay }, Vec2 { x: bx, y: by });
        // rounding: to the nearest, halves away from zero
        let round = |x: i32| {
            let n = (x as i64).abs() * 2 + den;
            (n.div_euclid(2 * den) * (x as i64).signum()).clamp(i32::MIN as i64, i32::MAX as i64) as i32
        };
        for x in [c.a.0, c.a.1, c.b.0] {
            ensure_eq!(arith::ROUND(g(x)), round(x), "ROUND({:?})", g(x));
            // the numbers next to a half
            let half = (x as i64 % (1 << 30)) as f64 + if x < 0 { -0.5 } else { 0.5 };
            let bits = half.to_bits();
            let (less, more) = (f64::from_bits(bits - 1), f64::from_bits(bits + 1));
            ensure_eq!(arith::ROUND(less), half.trunc() as i32, "ROUND({:?})", less);
            ensure_eq!(arith::ROUND(more), half.trunc() as i32 + if x < 0 { -1 } else { 1 }, "ROUND({:?})", more);
            // points: 72 to the inch
            let e = ((x as i64).abs() * 144 + den).div_euclid(2 * den) * (x as i64).signum();
            if e.abs() < i32::MAX as i64 {
                ensure_eq!(POINTS(g(x)), e as i32, "POINTS({:?})", g(x));
            }
            ensure_eq!(INCH2PS(g(x)), g(x) * 72.0, "INCH2PS({:?})", g(x));
            let back = PS2INCH(INCH2PS(g(x)));
            ensure!((back - g(x)).abs() <= 1e-12 * g(x).abs(), "PS2INCH(INCH2PS({:?})) is {}", g(x), back);
            let back = arith::DEGREES(arith::RADIANS(g(x)));
            ensure!((back - g(x)).abs() <= 1e-12 * g(x).abs(), "DEGREES(RADIANS({:?})) is {}", g(x), back);
            let r = arith::RADIANS(g(x));
            let e = g(x) * (std::f64::consts::PI / 180.0);
            ensure!((r - e).abs() <= 1e-12 * e.abs(), "RADIANS({:?}) is {}", g(x), r);
        }
        // picas, centimetres and millimetres
        for (name, got, inch) in [("PC", POINTS_PER_PC, 6.0), ("CM", POINTS_PER_CM, 2.54), ("MM", POINTS_PER_MM, 25.4)] {
            let back = g(c.c) * inch * got;
            ensure!((back - g(c.c) * 72.0).abs() <= 1e-7 * (1.0 + back.abs()), "{} inches are {} points by POINTS_PER_{}", g(c.c), back, name);
        }
        ensure_eq!(PF2P(p), Vec2 { x: round(c.a.0), y: round(c.a.1) }, "PF2P({:?})", p);
        // a box is rounded corner by corner, whichever corner lies where
        let fb = boxf { LL: p, UR: q };
        let ib = BF2B(&fb);
        ensure!(
            ib.LL == Vec2 { x: round(c.a.0), y: round(c.a.1) } && ib.UR == Vec2 { x: round(c.b.0), y: round(c.b.1) },
            "BF2B({:?} - {:?}) gives {:?} - {:?}", p, q, ib.LL, ib.UR
        );
        let bb = B2BF(&boxi { LL: Vec2 { x: c.a.0, y: c.a.1 }, UR: Vec2 { x: c.b.0, y: c.b.1 } });
        ensure!(
            bb.LL == Vec2 { x: c.a.0 as f64, y: c.a.1 as f64 } && bb.UR == Vec2 { x: c.b.0 as f64, y: c.b.1 as f64 },
            "B2BF({:?} - {:?}) gives {:?} - {:?}", c.a, c.b, bb.LL, bb.UR
        );
        let ip = Vec2 { x: c.a.0, y: c.a.1 };
        ensure_eq!(P2PF(ip), Vec2 { x: c.a.0 as f64, y: c.a.1 as f64 }, "P2PF({:?})", ip);
        ensure_eq!(PF2P(P2PF(ip)), ip, "PF2P(P2PF({:?}))", ip);

        // from here on, only the relations of the numbers matter
        let up = 2f64.powi(c.power as i32);
        let (ax, ay, bx, by, k) = (ax * up, ay * up, bx * up, by * up, k * up);
        let (p, q) = (Vec2 { x: ax, y: ay }, Vec2 { x: bx, y: by });

        // order
        ensure_eq!(arith::MIN(ax, bx), if c.a.0 <= c.b.0 { ax } else { bx }, "MIN");
        ensure_eq!(arith::MAX(ax, bx), if c.a.0 >= c.b.0 { ax } else { bx }, "MAX");
        ensure_eq!(arith::MIN(c.a.0, c.b.0), c.a.0.min(c.b.0), "MIN of integers");
        ensure_eq!(arith::MAX(c.a.0, c.b.0), c.a.0.max(c.b.0), "MAX of integers");
        ensure_eq!(math::fmin(ax, bx), ax.min(bx), "fmin({}, {})", ax, bx);
        ensure_eq!(math::fmax(ax, bx), ax.max(bx), "fmax({}, {})", ax, bx);
        ensure_eq!(arith::CMP(ax, bx), c.a.0.cmp(&c.b.0) as i32, "CMP({}, {})", ax, bx);
        ensure_eq!(arith::SGN(ax), if c.a.0 < 0 { -1 } else { 1 }, "SGN({})", ax);
        ensure_eq!(arith::BETWEEN(ax, bx, ay), c.a.0 <= c.b.0 && c.b.0 <= c.a.1, "BETWEEN({}, {}, {})", ax, bx, ay);
        ensure_eq!(arith::AVG(ax, bx), (c.a.0 as i64 + c.b.0 as i64) as f64 / (2.0 * den as f64) * up, "AVG({}, {})", ax, bx);
        ensure_eq!(math::sqr(c.ints.0 as i32), c.ints.0 as i32 * c.ints.0 as i32, "sqr({})", c.ints.0);
        ensure_eq!(arith::SQR(ax), ax * ax, "SQR({})", ax);

        // distances, against exact integers
        let (dx, dy) = ((c.a.0 as i128 - c.b.0 as i128), (c.a.1 as i128 - c.b.1 as i128));
        let d2 = (dx * dx + dy * dy) as f64 / (den * den) as f64 * (up * up);
        let near = |x: f64, e: f64| (x - e).abs() <= 1e-12 * e.abs();
        ensure!(near(DIST2(p, q), d2), "DIST2({:?}, {:?}) is {}, expected {}", p, q, DIST2(p, q), d2);
        ensure!(near(DIST(p, q), d2.sqrt()), "DIST({:?}, {:?}) is {}, expected {}", p, q, DIST(p, q), d2.sqrt());
        let l2 = (c.a.0 as i128 * c.a.0 as i128 + c.a.1 as i128 * c.a.1 as i128) as f64 / (den * den) as f64 * (up * up);
        ensure!(near(LEN2(ax, ay), l2) && near(LEN(ax, ay), l2.sqrt()), "LEN2 and LEN of ({}, {}) are {} and {}", ax, ay, LEN2(ax, ay), LEN(ax, ay));
        let tol = k.abs();
        let diff = (c.a.0 as i64 - c.b.0 as i64).abs();
        ensure_eq!(APPROXEQ(ax, bx, tol), diff < (c.c as i64).abs(), "APPROXEQ({}, {}, {})", ax, bx, tol);
        ensure_eq!(APPROXEQPT(p, q, tol), d2 < (c.c as i128 * c.c as i128) as f64 / (den * den) as f64 * (up * up), "APPROXEQPT({:?}, {:?}, {})", p, q, tol);

        // vectors
        ensure_eq!(p + q, Vec2 { x: ax + bx, y: ay + by }, "{:?} + {:?}", p, q);
        ensure_eq!(p - q, Vec2 { x: ax - bx, y: ay - by }, "{:?} - {:?}", p, q);
        ensure_eq!(p * k, Vec2 { x: ax * k, y: ay * k }, "{:?} * {}", p, k);
        ensure_eq!(k * p, p * k, "{} * {:?}", k, p);
        if k != 0.0 {
            ensure_eq!(p / k, Vec2 { x: ax / k, y: ay / k }, "{:?} / {}", p, k);
        }
        ensure_eq!(p == q, c.a == c.b, "{:?} == {:?}", p, q);
        let i = |x: i16| x as i32;
        let (v, w) = (Vec2 { x: i(c.ints.0), y: i(c.ints.1) }, Vec2 { x: i(c.ints.2), y: i(c.ints.3) });
        ensure_eq!(v + w - w, v, "({:?} + {:?}) - the same", v, w);
        ensure_eq!(v * i(c.ints.4), Vec2 { x: v.x * i(c.ints.4), y: v.y * i(c.ints.4) }, "{:?} * {}", v, c.ints.4);
        if c.ints.4 != 0 {
            ensure_eq!(v * i(c.ints.4) / i(c.ints.4), v, "{:?} * {} / the same", v, c.ints.4);
        }
        ensure_eq!(format!("{:?}", v), format!("({}, {})", v.x, v.y), "Debug of a vector");
        let t: (i32, i32) = v.into();
        ensure_eq!(t, (v.x, v.y), "pair of {:?}", v);
        ensure_eq!(Vec2::from(t), v, "vector of {:?}", t);
        let ang = g(c.c) / 1000.0;
        let u = Vec2::from_angle(ang);
        ensure!((u.x - ang.cos()).abs() < 1e-9 && (u.y - ang.sin()).abs() < 1e-9, "from_angle({}) is {:?}", ang, u);
        cx.nt_if(c.a != c.b && c.a.0 != 0 && den > 1);
        Ok(())
    }
}

// ---------------------------------------------------------------- B03

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ArrayCase {
    rows: usize,
    cols: usize,
    extra: usize,
    square: bool,
    sets: Vec<(usize, usize, i32)>,
}
struct Arrays;
impl Part for Arrays {
    type Case = ArrayCase;
    const NAME: &'static str = "arrays";
    fn cases(t: Tier) -> u64 {
        t.pick(500_000, 10_000_000)
    }
    fn strategy(_: Tier) -> BoxedStrategy<ArrayCase> {
        prop_oneof![50_000 => (0usize..8, 0usize..8, 0usize..4, any::<bool>()), 50 => (0usize..300, 0usize..300, 0usize..40, any::<bool>()), 1 => (0usize..3, 65_000usize..140_000, 0usize..40, Just(false)), 1 => (65_000usize..140_000, 0usize..3, 0usize..4, Just(false)), 1 => (0usize..1400, 0usize..1400, 0usize..40, any::<bool>())]
            .prop_flat_map(|(rows, cols, extra, square)| {
                let cols = if square { rows } else { cols };
                let n = if rows == 0 || cols + extra == 0 { 0 } else { 20 };
                (Just((rows, cols, extra, square)), vec((0..rows.max(1), 0..(cols + extra).max(1), 1i32..1000), 0..=n))
            })
            .prop_map(|((rows, cols, extra, square), sets)| ArrayCase { rows, cols, extra, square, sets })
            .boxed()
    }
    fn check(c: &ArrayCase, cx: &mut Ctx) -> Check {
        let mut a: Array2<i32> = if c.square { allocArray(c.rows, c.extra) } else { Array2::new(c.rows, c.cols, c.extra) };
        ensure_eq!((a.rows, a.cols, a.extra), (c.rows, c.cols, c.extra), "size");
        let w = c.cols + c.extra;
        let mut m = vec![vec![0; w]; c.rows];
        for &(i, j, v) in &c.sets {
            a[(i, j)] = v;
            m[i][j] = v;
            // in full, unless the array is large
            for i in if c.rows * w < 500 { 0..c.rows } else { i..i + 1 } {
                for j in 0..w {
                    ensure_eq!(a[(i, j)], m[i][j], "entry ({}, {})", i, j);
                }
            }
        }
        for i in 0..c.rows {
            for j in 0..w {
                ensure_eq!(a[(i, j)], m[i][j], "entry ({}, {})", i, j);
            }
        }
        let mut b = a.clone();
        for i in 0..c.rows {
            for j in 0..w {
                ensure_eq!(b[(i, j)], m[i][j], "entry ({}, {}) of the clone", i, j);
            }
        }
        if c.rows > 0 && w > 0 {
            b[(c.rows - 1, w - 1)] = -5;
            ensure_eq!(a[(c.rows - 1, w - 1)], m[c.rows - 1][w - 1], "the last entry after a change to the clone");
        }
        cx.nt_if(c.rows >= 2 && w >= 2 && c.sets.len() >= 3);
        Ok(())
    }
}

// ---------------------------------------------------------------- C01

#[cfg(feature = "hook_color")]
mod color {
    use super::*;
    use trellis::common::colxlate::vp_hooks::{hsv2rgb, rgb2cmyk, rgb2hsv};

    #[derive(Clone, Debug, Serialize, Deserialize)]
    pub struct ColorCase {
        /// in 1/den
        c: [u32; 3],
        den: u32,
        /// steps to a neighbouring number, by component
        #[serde(default)]
        nudge: [i8; 3],
    }
    fn colors() -> BoxedStrategy<ColorCase> {
        prop_oneof![Just(1u32), Just(2), Just(6), Just(10), Just(255), Just(65535), Just(1 << 30)]
            .prop_flat_map(|den| {
                let x = move || prop_oneof![6 => 0..=den, 1 => Just(0u32), 1 => Just(den)];
                let n = prop_oneof![5 => Just([0i8; 3]), 1 => [-1i8..2, -1i8..2, -1i8..2], 1 => [-3i8..4, -3i8..4, -3i8..4]];
                (x(), x(), x(), 0u8..6, Just(den), n)
            })
            .prop_map(|(a, b, c, same, den, nudge)| ColorCase {
                c: match same {
                    0 => [a, a, c],
                    1 => [a, b, a],
                    2 => [a, b, b],
                    _ => [a, b, c],
                },
                den,
                nudge,
            })
            .boxed()
    }
    impl ColorCase {
        fn values(&self) -> [f64; 3] {
            let mut r = self.c.map(|x| x as f64 / self.den as f64);
            for (x, n) in r.iter_mut().zip(self.nudge) {
                if *x > 0.0 {
                    *x = f64::from_bits(x.to_bits().wrapping_add_signed(n as i64)).min(1.0);
                }
            }
            r
        }
    }
    fn near(a: &[f64], b: &[f64]) -> bool {
        a.iter().zip(b).all(|(x, y)| (x - y).abs() <= 1e-9)
    }

    pub struct FromRgb;
    impl Part for FromRgb {
        type Case = ColorCase;
        const NAME: &'static str = "from-rgb";
        fn cases(t: Tier) -> u64 {
            t.pick(1_000_000, 20_000_000)
        }
        fn strategy(_: Tier) -> BoxedStrategy<ColorCase> {
            colors()
        }
        fn check(c: &ColorCase, cx: &mut Ctx) -> Check {
            let [r, g, b] = c.values();
            let [h, s, v] = rgb2hsv(r, g, b);
            let (hi, lo) = (*c.c.iter().max().unwrap(), *c.c.iter().min().unwrap());
            ensure!(near(&[v], &[hi as f64 / c.den as f64]), "value of {:?} is {}", [r, g, b], v);
            let es = if hi == 0 { 0.0 } else { (hi - lo) as f64 / hi as f64 };
            ensure!(near(&[s], &[es]), "saturation of {:?} is {}, expected {}", [r, g, b], s, es);
            ensure!(h >= 0.0 && h <= 1.0, "hue of {:?} is {}", [r, g, b], h);
            let d = (hi - lo) as f64;
            if hi == lo && !(r == g && g == b) {
                // almost grey: rounding decides on the hue
                cx.label("almost grey");
            } else if hi == lo {
                ensure_eq!(h, 0.0, "hue of the grey {:?}", [r, g, b]);
            } else {
                // the hue by the angle in the colour hexagon
                let [x, y, z] = c.c.map(|x| x as f64);
                let e = if c.c[0] == hi { (y - z) / d } else if c.c[1] == hi { 2.0 + (z - x) / d } else { 4.0 + (x - y) / d };
                let e = e.rem_euclid(6.0) / 6.0;
                let d = (h - e).abs();
                ensure!(d <= 1e-9 || c.nudge != [0; 3] && d >= 1.0 - 1e-9, "hue of {:?} is {}, expected {}", [r, g, b], h, e);
            }
            let back = hsv2rgb(h, s, v);
            ensure!(near(&back, &[r, g, b]), "{:?} as hue, saturation, value: {:?}; and back: {:?}", [r, g, b], [h, s, v], back);

            let [cc, m, y, k] = rgb2cmyk(r, g, b);
            ensure!(near(&[k], &[1.0 - hi as f64 / c.den as f64]), "black of {:?} is {}", [r, g, b], k);
            ensure!(near(&[1.0 - k - cc, 1.0 - k - m, 1.0 - k - y], &[r, g, b]), "{:?} as cyan, magenta, yellow, black: {:?}", [r, g, b], [cc, m, y, k]);
            ensure!([cc, m, y, k].iter().all(|x| (0.0..=1.0).contains(x)) && cc.min(m).min(y) == 0.0, "{:?} as cyan, magenta, yellow, black: {:?}", [r, g, b], [cc, m, y, k]);
            cx.nt_if(hi > lo && c.c.iter().all(|x| *x > 0));
            Ok(())
        }
    }

    pub struct FromHsv;
    impl Part for FromHsv {
        type Case = ColorCase;
        const NAME: &'static str = "from-hsv";
        fn cases(t: Tier) -> u64 {
            t.pick(1_000_000, 20_000_000)
        }
        fn strategy(_: Tier) -> BoxedStrategy<ColorCase> {
            colors()
        }
        fn check(c: &ColorCase, cx: &mut Ctx) -> Check {
            let [h, s, v] = c.values();
            let rgb = hsv2rgb(h, s, v);
            let chan = |n: f64| {
                let k = (n + h * 6.0).rem_euclid(6.0);
                v - v * s * k.min(4.0 - k).clamp(0.0, 1.0)
            };
            let e = [chan(5.0), chan(3.0), chan(1.0)];
            ensure!(near(&rgb, &e), "hue, saturation, value {:?} gives {:?}, expected {:?}", [h, s, v], rgb, e);
            if s >= 0.001 && v >= 0.001 {
                let back = rgb2hsv(rgb[0], rgb[1], rgb[2]);
                let dh = (back[0] - h).abs();
                ensure!(dh.min((1.0 - dh).abs()) <= 1e-7 && near(&back[1..], &[s, v]), "hue, saturation, value {:?} gives {:?}, and back: {:?}", [h, s, v], rgb, back);
                cx.nt_if(s < 1.0);
            }
            Ok(())
        }
    }
}

// ---------------------------------------------------------------- I01

#[cfg(feature = "hook_iters")]
mod runs {
    use super::*;
    use trellis::vp_iters::{iter_runs, iter_runs_by_key};

    #[derive(Clone, Debug, Serialize, Deserialize)]
    pub struct RunCase {
        items: Vec<u8>,
        /// which pairs count as the same run
        how: u8,
        more: u8,
    }
    fn same(how: u8, a: u8, b: u8) -> bool {
        match how % 6 {
            0 => a == b,
            1 => a / 3 == b / 3,
            // not symmetric, not transitive
            2 => a <= b,
            3 => (a as i32 - b as i32).abs() <= 1,
            4 => true,
            _ => false,
        }
    }
    pub struct Runs;
    impl Part for Runs {
        type Case = RunCase;
        const NAME: &'static str = "runs";
        fn cases(t: Tier) -> u64 {
            t.pick(500_000, 10_000_000)
        }
        fn strategy(_: Tier) -> BoxedStrategy<RunCase> {
            let few = (vec((0u8..8, 1usize..5), 0..10)).prop_map(|v| v.into_iter().flat_map(|(x, n)| vec![x; n]).collect::<Vec<u8>>());
            let huge = (vec((0u8..8, 60_000usize..80_000), 1..3)).prop_map(|v| v.into_iter().flat_map(|(x, n)| vec![x; n]).collect::<Vec<u8>>());
            let long = (vec((0u8..8, 1usize..700), 0..5)).prop_map(|v| v.into_iter().flat_map(|(x, n)| vec![x; n]).collect::<Vec<u8>>());
            (prop_oneof![30_000 => few, 20_000 => vec(0u8..9, 0..20), 100 => long, 1 => huge], any::<u8>(), 0u8..4).prop_map(|(items, how, more)| RunCase { items, how, more }).boxed()
        }
        fn check(c: &RunCase, cx: &mut Ctx) -> Check {
            // owned items, so that what is handed out is the item itself
            let items: Vec<(u8, usize)> = c.items.iter().copied().enumerate().map(|(i, x)| (x, i)).collect();
            let split = |same: &dyn Fn(u8, u8) -> bool| {
                let mut out: Vec<Vec<(u8, usize)>> = Vec::new();
                for x in &items {
                    match out.last_mut() {
                        Some(r) if same(r[0].0, x.0) => r.push(*x),
                        _ => out.push(vec![*x]),
                    }
                }
                out
            };
            let exp = split(&|a, b| same(c.how, a, b));
            let mut it = iter_runs(&items, |a: &(u8, usize), b: &(u8, usize)| same(c.how, a.0, b.0));
            for (i, e) in exp.iter().enumerate() {
                ensure_eq!(it.next(), Some(&e[..]), "run {} of {:?} (relation {})", i, c.items, c.how % 6);
            }
            for _ in 0..=c.more {
                ensure_eq!(it.next(), None, "after the last run of {:?}", c.items);
            }
            let key = |x: u8| match c.how % 3 {
                0 => x,
                1 => x / 2,
                _ => x % 2,
            };
            let by = split(&|a, b| key(a) == key(b));
            let mut it = iter_runs_by_key(&items, |x: &(u8, usize)| key(x.0));
            for (i, e) in by.iter().enumerate() {
                ensure_eq!(it.next(), Some(&e[..]), "run {} by key of {:?}", i, c.items);
            }
            for _ in 0..=c.more {
                ensure_eq!(it.next(), None, "after the last run by key of {:?}", c.items);
            }
            let h = mix(c.items.len() as u64, c.how as u64 * 256 + c.more as u64);
            drive_all("runs", iter_runs(&items, |a: &(u8, usize), b: &(u8, usize)| same(c.how, a.0, b.0)), |r| r.len(), &exp.iter().map(|r| r.len()).collect::<Vec<_>>(), h)?;
            drive_all("runs by key", iter_runs_by_key(&items, |x: &(u8, usize)| key(x.0)), |r| r.len(), &by.iter().map(|r| r.len()).collect::<Vec<_>>(), h >> 1)?;
            cx.label_if(c.items.len() > 300, "long");
            cx.nt_if(exp.len() >= 2 && exp.iter().any(|r| r.len() >= 2));
            Ok(())
        }
    }
}

pub fn props() -> Vec<PropDef> {
    #[allow(unused_mut)]
    let mut v = vec![
        PropDef {
            id: "B01",
            rule: "two to four random boxes and points, on small and large grids, against integer comparisons; non-trivial: a point inside and one outside, and two different boxes that overlap",
            assumptions: &["boxes whose corners are in order, no NaN", "a box is clipped to one that it overlaps"],
            parts: vec![part::<Boxes>()],
        },
        PropDef {
            id: "B02",
            rule: "random numbers that are multiples of powers of 1/2 against exact integer arithmetic, the numbers next to halves, and random vectors; non-trivial: two different points, not all integers",
            assumptions: &["no NaN and no overflow of integers"],
            parts: vec![part::<Numbers>()],
        },
        PropDef {
            id: "B03",
            rule: "random sizes and sequences of writes against a list of rows, compared in full after each write; non-trivial: two or more rows and columns and three or more writes",
            assumptions: &["indexes inside the array, including the extra columns"],
            parts: vec![part::<Arrays>()],
        },
    ];
    #[cfg(feature = "hook_iters")]
    v.push(PropDef {
        id: "I01",
        rule: "random lists with repetitions and several relations (equality, classes, order, closeness, all, none) and keys, against a direct split; non-trivial: two or more runs, one of two or more items",
        assumptions: &["the relation is a function of the two items", "called through a hook, since the module is private"],
        parts: vec![part::<runs::Runs>()],
    });
    #[cfg(feature = "hook_color")]
    v.push(PropDef {
        id: "C01",
        rule: "random colours on grids of several sizes, with equal channels and extreme values, against the colour hexagon, in both directions; non-trivial: not grey, no channel 0 (from rgb), saturation below 1 (from hsv)",
        assumptions: &["channels from 0 to 1", "the conversions are called through a hook, since they are private"],
        parts: vec![part::<color::FromRgb>(), part::<color::FromHsv>()],
    });
    v
}
