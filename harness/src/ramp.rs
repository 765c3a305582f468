//! RampTable and RampTableBuilder.
use crate::core::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use trellis::ramp_table::{RampTable, RampTableBuilder};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    PushValue(u32),
    FinishKey,
    EntryCopy(Vec<u32>),
    EntryClone(Vec<u32>),
    EntryExtend(Vec<u32>),
    Clear,
    IterMut(u16, u32),
    EntryMut(u16, u16, u32),
    IndexMut(u16, u16, u32),
    AllMut(u16, u32),
    Clone,
    ReplaceNew(u8),
    /// keys, values per key at most, numbers
    Many(u16, u8, u64),
    /// one key with that many values
    Long(u32, u32),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Hist {
    cap: Option<(u8, u8)>,
    ops: Vec<Op>,
    probe: Vec<u8>,
}

#[derive(Default, Clone, Debug)]
struct Model {
    keys: Vec<Vec<u32>>,
    unowned: Vec<u32>,
}
impl Model {
    fn all(&self) -> Vec<u32> {
        self.keys.iter().flatten().chain(self.unowned.iter()).copied().collect()
    }
    fn pairs(&self) -> Vec<(usize, u32)> {
        self.keys.iter().enumerate().flat_map(|(k, v)| v.iter().map(move |x| (k, *x))).collect()
    }
    fn finish(&mut self) -> usize {
        let u = std::mem::take(&mut self.unowned);
        self.keys.push(u);
        self.keys.len() - 1
    }
    fn set_all(&mut self, i: usize, x: u32) {
        let mut n = 0;
        for v in self.keys.iter_mut().chain(std::iter::once(&mut self.unowned)) {
            if i < n + v.len() {
                v[i - n] = x;
                return;
            }
            n += v.len();
        }
    }
}

#[allow(deprecated)]
fn compare(t: &mut RampTable<u32>, m: &Model, probe: &[u8]) -> Check {
    ensure_eq!(t.len(), m.keys.len(), "len");
    ensure_eq!(t.is_empty(), m.keys.is_empty(), "is_empty");
    ensure_eq!(t.num_keys(), m.keys.len(), "num_keys");
    let all = m.all();
    ensure_eq!(t.num_values(), all.len(), "num_values");
    ensure_eq!(t.all_values(), &all[..], "all_values");
    let it: Vec<&[u32]> = t.iter().collect();
    ensure_eq!(it, m.keys.iter().map(|v| &v[..]).collect::<Vec<_>>(), "iter");
    let rv: Vec<&[u32]> = t.iter().rev().collect();
    ensure_eq!(rv, m.keys.iter().rev().map(|v| &v[..]).collect::<Vec<_>>(), "iter().rev()");
    {
        // both ends, in the probed order
        let mut it = t.iter();
        let (mut lo, mut hi) = (0, m.keys.len());
        for p in probe {
            ensure_eq!(it.len(), hi - lo, "iter().len()");
            if p % 2 == 0 {
                let e = if lo < hi { lo += 1; Some(&m.keys[lo - 1][..]) } else { None };
                ensure_eq!(it.next(), e, "iter().next()");
            } else {
                let e = if lo < hi { hi -= 1; Some(&m.keys[hi][..]) } else { None };
                ensure_eq!(it.next_back(), e, "iter().next_back()");
            }
        }
    }
    let h = probe.iter().fold(all.len() as u64, |h, p| h.wrapping_mul(31).wrapping_add(*p as u64));
    let pairs = m.pairs();
    drive_both("iter", t.iter(), |s| s.to_vec(), &m.keys, mix(h, 1))?;
    drive_all("iter_mut", t.iter_mut(), |s| s.to_vec(), &m.keys, mix(h, 2))?;
    drive_all("iter_pairs", t.iter_pairs(), |(k, v)| (k, *v), &pairs, mix(h, 3))?;
    drive_all("iter_pairs_manual", t.iter_pairs_manual(), |(k, v)| (k, *v), &pairs, mix(h, 4))?;
    let mut start = 0;
    for (k, v) in m.keys.iter().enumerate() {
        ensure_eq!(t.entry_values(k), &v[..], "entry_values({})", k);
        ensure_eq!(t[k], v[..], "index {}", k);
        ensure_eq!(t.entry_values_range(k), start..start + v.len(), "entry_values_range({})", k);
        start += v.len();
        ensure_eq!(&*t.entry_values_mut(k), &v[..], "entry_values_mut({})", k);
    }
    ensure_eq!(t.iter_pairs().map(|(k, v)| (k, *v)).collect::<Vec<_>>(), pairs, "iter_pairs");
    ensure_eq!(t.iter_pairs_manual().map(|(k, v)| (k, *v)).collect::<Vec<_>>(), pairs, "iter_pairs_manual");
    let im: Vec<Vec<u32>> = t.iter_mut().map(|s| s.to_vec()).collect();
    ensure_eq!(im, m.keys, "iter_mut");
    let dbg: std::collections::BTreeMap<usize, &Vec<u32>> = m.keys.iter().enumerate().filter(|(_, v)| !v.is_empty()).collect();
    ensure_eq!(format!("{:?}", t), format!("{:?}", dbg), "Debug");
    Ok(())
}

/// The same table with values of another type.
#[allow(deprecated)]
fn compare_as<T: Clone + PartialEq + std::fmt::Debug>(m: &Model, make: fn(u32) -> T) -> Check {
    let keys: Vec<Vec<T>> = m.keys.iter().map(|k| k.iter().map(|v| make(*v)).collect()).collect();
    let mut t = RampTable::new();
    for (i, k) in keys.iter().enumerate() {
        match i % 3 {
            0 => {
                t.push_entry_clone(k);
            }
            1 => {
                t.push_entry_extend(k.iter().cloned());
            }
            _ => {
                k.iter().for_each(|v| t.push_value(v.clone()));
                t.finish_key();
            }
        }
    }
    for v in &m.unowned {
        t.push_value(make(*v));
    }
    let all: Vec<T> = m.all().into_iter().map(make).collect();
    let pairs: Vec<(usize, T)> = keys.iter().enumerate().flat_map(|(i, k)| k.iter().map(move |v| (i, v.clone()))).collect();
    ensure_eq!((t.num_keys(), t.num_values()), (keys.len(), all.len()), "size");
    ensure_eq!(t.all_values(), &all[..], "all_values");
    ensure_eq!(t.iter().map(|k| k.to_vec()).collect::<Vec<_>>(), keys, "iter");
    ensure_eq!(t.iter().rev().map(|k| k.to_vec()).collect::<Vec<_>>(), keys.iter().rev().cloned().collect::<Vec<_>>(), "iter().rev()");
    ensure_eq!(t.iter_mut().map(|k| k.to_vec()).collect::<Vec<_>>(), keys, "iter_mut");
    ensure_eq!(t.iter_pairs().map(|(k, v)| (k, v.clone())).collect::<Vec<_>>(), pairs, "iter_pairs");
    ensure_eq!(t.iter_pairs_manual().map(|(k, v)| (k, v.clone())).collect::<Vec<_>>(), pairs, "iter_pairs_manual");
    for (i, k) in keys.iter().enumerate() {
        ensure_eq!(t.entry_values(i), &k[..], "entry_values({})", i);
        ensure_eq!(&*t.entry_values_mut(i), &k[..], "entry_values_mut({})", i);
    }
    let copy = t.clone();
    ensure!(copy == t, "the clone is not equal");
    Ok(())
}

fn op() -> BoxedStrategy<Op> {
    let val = || 0u32..50;
    let vals = || vec(0u32..50, 0..5);
    prop_oneof![
        6 => val().prop_map(Op::PushValue),
        5 => Just(Op::FinishKey),
        2 => vals().prop_map(Op::EntryCopy),
        2 => vals().prop_map(Op::EntryClone),
        2 => vals().prop_map(Op::EntryExtend),
        1 => Just(Op::Clear),
        1 => (any::<u16>(), val()).prop_map(|(a, b)| Op::IterMut(a, b)),
        1 => (any::<u16>(), any::<u16>(), val()).prop_map(|(a, b, c)| Op::EntryMut(a, b, c)),
        1 => (any::<u16>(), any::<u16>(), val()).prop_map(|(a, b, c)| Op::IndexMut(a, b, c)),
        1 => (any::<u16>(), val()).prop_map(|(a, b)| Op::AllMut(a, b)),
        1 => Just(Op::Clone),
        1 => any::<u8>().prop_map(|k| Op::ReplaceNew(if k < 80 { 0 } else { k })),
    ]
    .boxed()
}

/// Operations, rarely on a large table.
fn ops(n: usize) -> BoxedStrategy<Vec<Op>> {
    let many = || {
        prop_oneof![(1u16..2500, 1u8..6, any::<u64>()), (1u16..40, 1u8..255, any::<u64>()), (1u16..600, Just(1u8), any::<u64>())]
            .prop_map(|(a, b, c)| Op::Many(a, b, c))
    };
    let big = (vec(op(), 0..6), many(), vec(op(), 0..8), proptest::option::of(many()), vec(op(), 0..8))
        .prop_map(|(a, b, c, d, e)| a.into_iter().chain(Some(b)).chain(c).chain(d).chain(e).collect());
    // more than 65536 values, sometimes keys
    let huge = (
        vec(op(), 0..3),
        vec(prop_oneof![2 => (20_000u16..40_000, 5u8..9, any::<u64>()), 1 => (500u16..1000, Just(255u8), any::<u64>()), 1 => (60_000u16..65_535, 1u8..3, any::<u64>())].prop_map(|(a, b, c)| Op::Many(a, b, c)).boxed().prop_union((65_530u32..140_000, any::<u32>()).prop_map(|(a, b)| Op::Long(a, b)).boxed()), 1..3),
        vec(op(), 0..6),
    )
        .prop_map(|(a, b, c)| a.into_iter().chain(b).chain(c).collect());
    prop_oneof![15_000 => vec(op(), 0..n), 50 => big, 1 => huge].boxed()
}

struct History;
impl Part for History {
    type Case = Hist;
    const NAME: &'static str = "history";
    fn cases(t: Tier) -> u64 {
        t.pick(400_000, 8_000_000)
    }
    fn strategy(t: Tier) -> BoxedStrategy<Hist> {
        (proptest::option::of((0u8..20, 0u8..20)), ops(t.pick(30, 80)), vec(any::<u8>(), 0..12)).prop_map(|(cap, ops, probe)| Hist { cap, ops, probe }).boxed()
    }
    fn check(c: &Hist, cx: &mut Ctx) -> Check {
        let mut t: RampTable<u32> = match c.cap {
            None => RampTable::new(),
            Some((k, v)) => RampTable::with_capacity(k as usize, v as usize),
        };
        let mut m = Model::default();
        let mut with_unowned = false;
        compare(&mut t, &m, &c.probe)?;
        for (n, op) in c.ops.iter().enumerate() {
            let e = |s: String| format!("operation {} ({:?}): {}", n, op, s);
            let nv = m.all().len();
            match op {
                Op::PushValue(x) => {
                    t.push_value(*x);
                    m.unowned.push(*x);
                }
                Op::FinishKey => {
                    let k = t.finish_key();
                    ensure_eq!(k, m.finish(), "operation {}: finish_key", n);
                }
                Op::EntryCopy(v) => {
                    t.push_entry_copy(v);
                    m.unowned.extend(v);
                    m.finish();
                }
                Op::EntryClone(v) => {
                    t.push_entry_clone(v);
                    m.unowned.extend(v);
                    m.finish();
                }
                Op::EntryExtend(v) => {
                    t.push_entry_extend(Source::new(v.iter().copied(), v.len(), n as u32 % 5));
                    m.unowned.extend(v);
                    m.finish();
                }
                Op::Many(keys, most, seed) => {
                    let mut x = *seed | 1;
                    for _ in 0..*keys {
                        x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                        let k = (x >> 33) as usize % *most as usize;
                        let v: Vec<u32> = (0..k as u32).map(|i| (x >> 40) as u32 ^ i).collect();
                        match (x >> 60) % 3 {
                            0 => t.push_entry_copy(&v),
                            1 => t.push_entry_extend(Source::new(v.iter().copied(), v.len(), (x >> 50) as u32 % 5)),
                            _ => {
                                for y in &v {
                                    t.push_value(*y);
                                }
                                let k = t.finish_key();
                                ensure_eq!(k, m.keys.len(), "operation {}: finish_key", n);
                            }
                        }
                        m.unowned.extend(v);
                        m.finish();
                    }
                }
                Op::Long(k, seed) => {
                    let v: Vec<u32> = (0..*k).map(|i| seed ^ i).collect();
                    t.push_entry_copy(&v);
                    m.unowned.extend(v);
                    m.finish();
                }
                Op::Clear => {
                    t.clear();
                    m = Model::default();
                }
                Op::IterMut(k, x) => {
                    if !m.keys.is_empty() {
                        let k = *k as usize * (1 + m.keys.len() / 65536 * 40506) % m.keys.len();
                        for s in t.iter_mut().skip(k).take(1) {
                            for y in s.iter_mut() {
                                *y = *x;
                            }
                        }
                        for y in m.keys[k].iter_mut() {
                            *y = *x;
                        }
                    }
                }
                Op::EntryMut(k, i, x) | Op::IndexMut(k, i, x) => {
                    if !m.keys.is_empty() {
                        let k = *k as usize * (1 + m.keys.len() / 65536 * 40506) % m.keys.len();
                        if !m.keys[k].is_empty() {
                            let i = *i as usize % m.keys[k].len();
                            if let Op::EntryMut(..) = op {
                                t.entry_values_mut(k)[i] = *x;
                            } else {
                                t[k][i] = *x;
                            }
                            m.keys[k][i] = *x;
                        }
                    }
                }
                Op::AllMut(i, x) => {
                    ensure_eq!(t.all_values_mut().len(), nv, "operation {}: all_values_mut", n);
                    if nv > 0 {
                        let i = *i as usize % nv;
                        t.all_values_mut()[i] = *x;
                        m.set_all(i, *x);
                    }
                }
                Op::Clone => {
                    let mut t2 = t.clone();
                    ensure!(t2 == t && !(t2 != t), "operation {}: a clone differs from its original", n);
                    if n % 2 == 1 {
                        // over other contents
                        t2.push_value(7);
                        t2.finish_key();
                        if n % 4 == 1 {
                            t2 = RampTable::new();
                            t2.push_entry_copy(&[5, 6]);
                        }
                        t2.clone_from(&t);
                        ensure!(t2 == t, "operation {}: a table differs from its original after clone_from", n);
                    }
                    t = t2;
                }
                Op::ReplaceNew(k) => {
                    if *k == 0 {
                        t = RampTable::default();
                        m = Model::default();
                    } else {
                        // the same contents, built another way
                        let mut t2 = RampTable::new();
                        for v in m.keys.iter() {
                            t2.push_entry_copy(v);
                        }
                        for &x in m.unowned.iter() {
                            t2.push_value(x);
                        }
                        ensure!(t2 == t, "operation {}: tables with equal contents differ", n);
                        // a difference in one place
                        let j = *k as usize / 4;
                        match k % 4 {
                            0 => {
                                t2.push_value(1);
                            }
                            1 => {
                                t2.finish_key();
                            }
                            2 if nv > 0 => {
                                let l = t2.num_values();
                                t2.all_values_mut()[j % l] ^= 1;
                            }
                            3 if m.keys.len() >= 2 => {
                                // a value moves over to the next key, or back
                                let mut keys = m.keys.clone();
                                let j = j % (keys.len() - 1);
                                if let Some(x) = keys[j].pop() {
                                    keys[j + 1].insert(0, x);
                                } else if !keys[j + 1].is_empty() {
                                    let x = keys[j + 1].remove(0);
                                    keys[j].push(x);
                                } else {
                                    keys.pop();
                                }
                                t2 = RampTable::new();
                                for v in keys.iter() {
                                    t2.push_entry_copy(v);
                                }
                                for &x in m.unowned.iter() {
                                    t2.push_value(x);
                                }
                            }
                            _ => {
                                t2.push_value(2);
                                t2.finish_key();
                            }
                        }
                        ensure!(t2 != t && t != t2, "operation {}: tables with different contents are equal", n);
                    }
                }
            }
            with_unowned |= !m.unowned.is_empty() && !m.keys.is_empty();
            compare(&mut t, &m, &c.probe).map_err(e)?;
        }
        if m.all().len() < 100 && m.keys.len() < 100 {
            compare_as(&m, |_| ()).map_err(|e| format!("a table of units: {}", e))?;
            compare_as(&m, |v| v.to_string()).map_err(|e| format!("a table of strings: {}", e))?;
            compare_as(&m, |v| (v as u8, v as f64)).map_err(|e| format!("a table of pairs: {}", e))?;
        }
        let empties = m.keys.iter().filter(|v| v.is_empty()).count();
        cx.label_if(with_unowned, "unowned-after-keys");
        cx.label_if(empties > 0, "empty-keys");
        cx.label_if(m.keys.len() > 1000, "more than 1000 keys");
        cx.label_if(m.all().len() > 1000, "more than 1000 values");
        cx.nt_if(m.keys.len() >= 3 && m.all().len() >= 3 && (empties > 0 || with_unowned));
        Ok(())
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct BuildCase {
    cap: Option<u8>,
    chunks: Vec<(bool, Vec<(u32, u32)>)>,
}

struct Builder;
impl Part for Builder {
    type Case = BuildCase;
    const NAME: &'static str = "builder";
    fn cases(t: Tier) -> u64 {
        t.pick(400_000, 8_000_000)
    }
    fn strategy(_: Tier) -> BoxedStrategy<BuildCase> {
        // more than 65536 pairs
        let huge = (prop_oneof![Just(3u32), Just(3000), Just(100_000)], 66_000u32..90_000, any::<u32>()).prop_map(|(k, n, x)| vec![(x % 2 == 0, (0..n).map(|i| (i.wrapping_mul(x | 1).rotate_left(9) % k, i % 1000)).collect())]);
        let chunks = |k: u32, n: usize, m: usize| vec((any::<bool>(), vec((0..k, 0u32..1000), 0..n)), 0..m);
        (
            proptest::option::of(0u8..40),
            prop_oneof![20 => chunks(2000, 5000, 3), 20 => chunks(5, 3000, 3), 1 => huge, 1 => chunks(6_000_000, 6, 3), 30_000 => prop_oneof![4 => chunks(6, 6, 5), 2 => chunks(40, 6, 6), 1 => chunks(1500, 4, 4), 1 => chunks(12, 40, 5)]],
        )
            .prop_map(|(cap, chunks)| BuildCase { cap, chunks })
            .boxed()
    }
    fn check(c: &BuildCase, cx: &mut Ctx) -> Check {
        let mut b = match c.cap {
            None => RampTableBuilder::new(),
            Some(n) => RampTableBuilder::with_capacity(n as usize),
        };
        let mut serial = 0u32;
        let mut m: Vec<Vec<(u32, u32)>> = Vec::new();
        let mut sorted = true;
        let mut last = 0;
        for (ext, items) in c.chunks.iter() {
            let items: Vec<(u32, (u32, u32))> = items
                .iter()
                .map(|&(k, v)| {
                    serial += 1;
                    (k, (v, serial))
                })
                .collect();
            for &(k, v) in items.iter() {
                if m.len() <= k as usize {
                    m.resize(k as usize + 1, Vec::new());
                }
                m[k as usize].push(v);
                sorted &= k >= last;
                last = k;
            }
            if *ext {
                b.extend(Source::new(items.iter().copied(), items.len(), serial % 5));
            } else {
                for (k, v) in items {
                    b.push(k, v);
                }
            }
        }
        let t = b.finish();
        ensure_eq!(t.len(), m.len(), "number of keys");
        for (k, v) in m.iter().enumerate() {
            ensure_eq!(t.entry_values(k), &v[..], "values of key {}", k);
        }
        ensure_eq!(t.all_values().len(), serial as usize, "number of values");
        let multi = m.iter().filter(|v| v.len() >= 2).count();
        let empty = m.iter().filter(|v| v.is_empty()).count();
        cx.label_if(empty > 0, "keys-without-values");
        cx.label_if(serial > 1000, "more than 1000 values");
        cx.nt_if(!sorted && multi >= 1 && m.len() >= 3);
        Ok(())
    }
}

// ---------------------------------------------------------------- panics of sources and of clone

thread_local!(static FUSE: std::cell::Cell<u32> = const { std::cell::Cell::new(u32::MAX) });
/// With a fuse of `n`, the call number `n` (from 0) panics.
fn burn() {
    FUSE.with(|f| {
        let n = f.get();
        if n == 0 {
            f.set(u32::MAX);
            panic!("injected panic");
        }
        if n != u32::MAX {
            f.set(n - 1);
        }
    })
}
/// An element that is not Copy, and whose clone may panic.
#[derive(Debug, PartialEq)]
struct El(Box<u32>);
impl Clone for El {
    fn clone(&self) -> El {
        burn();
        El(self.0.clone())
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum FaultOp {
    Value(u32),
    Finish,
    /// values, the one of them whose clone panics
    Clone(Vec<u32>, u8),
    /// values, the one of them at which the source panics, how much the source tells about its length
    Extend(Vec<u32>, u8, u8),
    Table(u8),
    Clear,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct FaultCase {
    ops: Vec<FaultOp>,
}

struct Faults;
impl Part for Faults {
    type Case = FaultCase;
    const NAME: &'static str = "panics";
    fn cases(t: Tier) -> u64 {
        t.pick(300_000, 5_000_000)
    }
    fn strategy(t: Tier) -> BoxedStrategy<FaultCase> {
        let vals = || vec(0u32..50, 0..9);
        let op = prop_oneof![
            4 => (0u32..50).prop_map(FaultOp::Value),
            3 => Just(FaultOp::Finish),
            3 => (vals(), 0u8..12).prop_map(|(v, k)| FaultOp::Clone(v, k)),
            3 => (vals(), 0u8..12, any::<u8>()).prop_map(|(v, k, h)| FaultOp::Extend(v, k, h)),
            1 => (0u8..20).prop_map(FaultOp::Table),
            1 => Just(FaultOp::Clear),
        ];
        vec(op, 0..t.pick(14, 40)).prop_map(|ops| FaultCase { ops }).boxed()
    }
    fn check(c: &FaultCase, cx: &mut Ctx) -> Check {
        let el = |x: u32| El(Box::new(x));
        let mut t: RampTable<El> = RampTable::new();
        let mut m = Model::default();
        let mut panics = 0;
        for (n, op) in c.ops.iter().enumerate() {
            FUSE.with(|f| f.set(u32::MAX));
            let mut entry = |t: &mut RampTable<El>, m: &mut Model, v: &[u32], k: u8, r: Result<(), String>| -> Check {
                FUSE.with(|f| f.set(u32::MAX));
                if r.is_ok() {
                    ensure!(k as usize >= v.len(), "operation {}: the panic got lost", n);
                    m.unowned.extend(v);
                    m.finish();
                } else {
                    ensure!((k as usize) < v.len(), "operation {}: {:?}", n, r);
                    // the first ones of the values may be in the table, without a key
                    let more = t.num_values().wrapping_sub(m.all().len());
                    ensure!(more <= k as usize, "operation {}: {} values after a panic at value {}", n, t.num_values(), k);
                    m.unowned.extend(&v[..more]);
                    panics += 1;
                }
                Ok(())
            };
            match op {
                FaultOp::Value(x) => {
                    t.push_value(el(*x));
                    m.unowned.push(*x);
                }
                FaultOp::Finish => {
                    let k = t.finish_key();
                    ensure_eq!(k, m.finish(), "operation {}: finish_key", n);
                }
                FaultOp::Clone(v, k) => {
                    let items: Vec<El> = v.iter().map(|x| el(*x)).collect();
                    FUSE.with(|f| f.set(*k as u32));
                    let r = catch(|| t.push_entry_clone(&items));
                    entry(&mut t, &mut m, v, *k, r)?;
                }
                FaultOp::Extend(v, k, hint) => {
                    let items = v.iter().map(|x| {
                        burn();
                        el(*x)
                    });
                    FUSE.with(|f| f.set(*k as u32));
                    let r = catch(|| t.push_entry_extend(Source::new(items, v.len(), *hint as u32)));
                    entry(&mut t, &mut m, v, *k, r)?;
                }
                FaultOp::Table(k) => {
                    FUSE.with(|f| f.set(*k as u32));
                    let r = catch(|| t.clone());
                    FUSE.with(|f| f.set(u32::MAX));
                    match r {
                        Ok(t2) => {
                            ensure!(t2 == t, "operation {}: a clone differs from its original", n);
                            t = t2;
                        }
                        Err(e) => {
                            ensure!((*k as usize) < m.all().len(), "operation {}: {}", n, e);
                            panics += 1;
                        }
                    }
                }
                FaultOp::Clear => {
                    t.clear();
                    m = Model::default();
                }
            }
            let e = |s: String| format!("operation {} ({:?}): {}", n, op, s);
            let look = || -> Check {
                ensure_eq!(t.len(), m.keys.len(), "len");
                ensure_eq!(t.all_values().iter().map(|x| *x.0).collect::<Vec<_>>(), m.all(), "all_values");
                ensure_eq!(t.iter().map(|s| s.iter().map(|x| *x.0).collect()).collect::<Vec<Vec<u32>>>(), m.keys, "iter");
                ensure_eq!(t.iter_pairs().map(|(k, x)| (k, *x.0)).collect::<Vec<_>>(), m.pairs(), "iter_pairs");
                ensure_eq!(t.iter_pairs_manual().map(|(k, x)| (k, *x.0)).collect::<Vec<_>>(), m.pairs(), "iter_pairs_manual");
                let mut start = 0;
                for (k, v) in m.keys.iter().enumerate() {
                    ensure_eq!(t.entry_values_range(k), start..start + v.len(), "entry_values_range({})", k);
                    start += v.len();
                }
                Ok(())
            };
            look().map_err(e)?;
        }
        cx.label_if(panics > 1, "several-panics");
        cx.nt_if(panics >= 1 && m.keys.len() >= 2 && m.all().len() >= 2);
        Ok(())
    }
}

pub fn props() -> Vec<PropDef> {
    vec![
        PropDef {
            id: "R01",
            rule: "random histories of every public RampTable operation, run against a list of lists plus a list of unowned values and compared in full after each operation; non-trivial: at the end at least 3 keys and 3 values, with an empty key or with unowned values after a key at some point; and short histories over elements that are not Copy, in which the source of values or clone panics part-way (non-trivial: a panic, 2 keys and 2 values at the end)",
            assumptions: &["the public fields index and values are not edited directly", "fewer than 2^32 values"],
            parts: vec![part::<History>(), part::<Faults>()],
        },
        PropDef {
            id: "R02",
            rule: "random (key, value) sequences, through push and extend, against grouping in arrival order, each value tagged with its arrival number; non-trivial: keys out of order, a key with several values and at least 3 keys",
            assumptions: &["fewer than 2^32 values and keys that fit in memory"],
            parts: vec![part::<Builder>()],
        },
    ]
}
