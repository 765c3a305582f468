//! V01, V02, V03: VecOption.
use crate::core::*;
use proptest::collection::vec;
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::collections::hash_map::DefaultHasher;
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::ops::Bound;
use trellis::vec_option::VecOption;

pub fn props() -> Vec<PropDef> {
    vec![
        PropDef {
            id: "V01",
            rule: "A case is a history of up to 60 VecOption operations (push/pop/set/replace/swap/drain/compact/clone/extend/collect/iterators, out-of-range indexes, pushes of runs up to 80 long, in some cases thousands) over one of four element types, compared with Vec<Option<T>> after every operation. Non-trivial: the history reaches a state with both Some and None entries and contains a structural operation (drain, compact, swap, clone, rebuild, pop_some) on a state with at least 3 entries.",
            assumptions: &["element types: u8, u32, String, seven bytes, a large one aligned to 32 and a zero-sized one", "memory of the harness is checked by red zones and fill patterns, not by a sanitizer, in the quick tier"],
            parts: vec![part::<Hist>()],
        },
        PropDef {
            id: "V02",
            rule: "A case is a VecOption history over elements that count their own clones and drops, optionally with one injected panic (in the k-th clone, k-th drop, or k-th step of a source iterator). Non-trivial: at least 3 elements were alive in the vector at once and (a value was dropped by the vector itself, or the injected panic fired).",
            assumptions: &["after an injected panic, leaking elements is allowed; dropping one twice, or exposing a dropped one, is not"],
            parts: vec![part::<Own>(), part::<OwnFault>(), part::<Consume>()],
        },
        PropDef {
            id: "V03",
            rule: "A case is three VecOption values, built from related lists through different construction histories. Non-trivial: at least two of them have the same length of 2 or more.",
            assumptions: &["the order between vectors of different length is only required to be a total order consistent with equality"],
            parts: vec![part::<Laws>(), part::<LawsPartial>()],
        },
    ]
}

// ---------------------------------------------------------------- operations

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Push(Option<u32>),
    PushSome(u32),
    PushNone,
    PushRun(u8, u32, u8),
    /// hundreds or thousands
    PushLong(u16, u32, u8),
    Pop,
    PopSome,
    Set(u16, Option<u32>),
    SetSome(u16, u32),
    SetNone(u16),
    Replace(u16, Option<u32>),
    ReplaceSome(u16, u32),
    ReplaceNone(u16),
    Swap(u16, u16),
    Get(u16),
    Write(u16, u32),
    Extend(Vec<Option<u32>>, bool),
    Reserve(u8),
    Compact(u8),
    Drain(u16, u16, u8, u8, u16),
    CloneSwap,
    /// other items, which of the two is overwritten
    CloneFrom(Vec<Option<u32>>, bool),
    CloneKeep(Vec<Op>),
    Rebuild(u8),
    IterMut(u32),
    IterSomeMut(u32),
    RunsMut,
    IterPartial(u8),
    Oob(u8, u8),
}

fn val() -> BoxedStrategy<u32> {
    prop_oneof![8 => 0u32..20, 1 => any::<u32>()].boxed()
}

fn oval() -> BoxedStrategy<Option<u32>> {
    prop_oneof![2 => val().prop_map(Some), 1 => Just(None)].boxed()
}

fn op(depth: u32) -> BoxedStrategy<Op> {
    let ix = any::<u16>();
    let mut v: Vec<(u32, BoxedStrategy<Op>)> = vec![
        (6, oval().prop_map(Op::Push).boxed()),
        (5, val().prop_map(Op::PushSome).boxed()),
        (5, Just(Op::PushNone).boxed()),
        (5, (1u8..80, any::<u32>(), any::<u8>()).prop_map(|(a, b, c)| Op::PushRun(a, b, c)).boxed()),
        (4, Just(Op::Pop).boxed()),
        (3, Just(Op::PopSome).boxed()),
        (2, (ix, oval()).prop_map(|(a, b)| Op::Set(a, b)).boxed()),
        (2, (ix, val()).prop_map(|(a, b)| Op::SetSome(a, b)).boxed()),
        (3, ix.prop_map(Op::SetNone).boxed()),
        (2, (ix, oval()).prop_map(|(a, b)| Op::Replace(a, b)).boxed()),
        (2, (ix, val()).prop_map(|(a, b)| Op::ReplaceSome(a, b)).boxed()),
        (2, ix.prop_map(Op::ReplaceNone).boxed()),
        (4, (ix, ix).prop_map(|(a, b)| Op::Swap(a, b)).boxed()),
        (3, ix.prop_map(Op::Get).boxed()),
        (3, (ix, val()).prop_map(|(a, b)| Op::Write(a, b)).boxed()),
        (3, (vec(oval(), 0..12), any::<bool>()).prop_map(|(a, b)| Op::Extend(a, b)).boxed()),
        (1, any::<u8>().prop_map(Op::Reserve).boxed()),
        (2, any::<u8>().prop_map(Op::Compact).boxed()),
        (6, (ix, ix, 0u8..9, 0u8..4, ix).prop_map(|(a, b, c, d, e)| Op::Drain(a, b, c, d, e)).boxed()),
        (3, Just(Op::CloneSwap).boxed()),
        (2, (vec(oval(), 0..12), any::<bool>()).prop_map(|(a, b)| Op::CloneFrom(a, b)).boxed()),
        (3, (0u8..12).prop_map(Op::Rebuild).boxed()),
        (2, val().prop_map(Op::IterMut).boxed()),
        (2, val().prop_map(Op::IterSomeMut).boxed()),
        (2, Just(Op::RunsMut).boxed()),
        (1, any::<u8>().prop_map(Op::IterPartial).boxed()),
        (1, (0u8..18, 0u8..70).prop_map(|(a, b)| Op::Oob(a, b)).boxed()),
    ];
    if depth > 0 {
        v.push((2, vec(op(depth - 1), 0..6).prop_map(Op::CloneKeep).boxed()));
    }
    proptest::strategy::Union::new_weighted(v).boxed()
}

/// Element types: `make(k).key() == fold(k)`.
pub trait Elem: Clone + 'static {
    fn make(k: u32) -> Self;
    fn fold(k: u32) -> u32;
    fn key(&self) -> u32;
    fn put(&mut self, k: u32);
    fn copy_at(_v: &mut VecOption<Self>, _i: usize) -> Option<Option<u32>> {
        None
    }
}
impl Elem for u8 {
    fn make(k: u32) -> u8 {
        k as u8
    }
    fn fold(k: u32) -> u32 {
        k & 0xff
    }
    fn key(&self) -> u32 {
        *self as u32
    }
    fn put(&mut self, k: u32) {
        *self = k as u8
    }
    fn copy_at(v: &mut VecOption<Self>, i: usize) -> Option<Option<u32>> {
        Some(v.get_copy(i).map(|x| x as u32))
    }
}
impl Elem for u32 {
    fn make(k: u32) -> u32 {
        k
    }
    fn fold(k: u32) -> u32 {
        k
    }
    fn key(&self) -> u32 {
        *self
    }
    fn put(&mut self, k: u32) {
        *self = k
    }
    fn copy_at(v: &mut VecOption<Self>, i: usize) -> Option<Option<u32>> {
        Some(v.get_copy(i))
    }
}
impl Elem for String {
    fn make(k: u32) -> String {
        k.to_string()
    }
    fn fold(k: u32) -> u32 {
        k
    }
    fn key(&self) -> u32 {
        self.parse().unwrap_or(u32::MAX - 7)
    }
    fn put(&mut self, k: u32) {
        *self = k.to_string()
    }
}
/// Large and strictly aligned; every part says the same.
#[derive(Clone)]
#[repr(align(32))]
struct Block([u32; 20]);
impl Elem for Block {
    fn make(k: u32) -> Block {
        Block([k; 20])
    }
    fn fold(k: u32) -> u32 {
        k
    }
    fn key(&self) -> u32 {
        assert_eq!(self as *const Block as usize % 32, 0, "an element is not aligned");
        assert!(self.0.iter().all(|x| *x == self.0[0]), "an element is damaged: {:?}", self.0);
        self.0[0]
    }
    fn put(&mut self, k: u32) {
        self.0 = [k; 20]
    }
}
/// Of a size that is no multiple of anything.
impl Elem for [u8; 7] {
    fn make(k: u32) -> [u8; 7] {
        let b = k.to_le_bytes();
        [b[0], b[1], b[2], b[3], b[2], b[1], b[0]]
    }
    fn fold(k: u32) -> u32 {
        k
    }
    fn key(&self) -> u32 {
        let k = u32::from_le_bytes([self[0], self[1], self[2], self[3]]);
        assert_eq!(*self, Self::make(k), "an element is damaged");
        k
    }
    fn put(&mut self, k: u32) {
        *self = Self::make(k)
    }
    fn copy_at(v: &mut VecOption<Self>, i: usize) -> Option<Option<u32>> {
        Some(v.get_copy(i).map(|x| x.key()))
    }
}
#[derive(Clone)]
struct Zst;
impl Elem for Zst {
    fn make(_: u32) -> Zst {
        Zst
    }
    fn fold(_: u32) -> u32 {
        0
    }
    fn key(&self) -> u32 {
        0
    }
    fn put(&mut self, _: u32) {}
}

type Model = Vec<Option<u32>>;

fn mk<T: Elem>(o: Option<u32>) -> Option<T> {
    o.map(T::make)
}
fn fo<T: Elem>(o: Option<u32>) -> Option<u32> {
    o.map(T::fold)
}
fn ko<T: Elem>(o: Option<T>) -> Option<u32> {
    o.map(|x| x.key())
}

/// Compares every read-only view of `v` with the model.
fn compare<T: Elem>(v: &mut VecOption<T>, m: &Model, what: &str) -> Check {
    ensure_eq!(v.len(), m.len(), "{}: len", what);
    ensure_eq!(v.is_empty(), m.is_empty(), "{}: is_empty", what);
    let got: Model = v.iter().map(|o| o.map(|x| x.key())).collect();
    ensure_eq!(got, *m, "{}: iter", what);
    Ok(())
}

fn runs_of(m: &Model) -> Vec<Vec<u32>> {
    let mut out: Vec<Vec<u32>> = Vec::new();
    let mut cur: Vec<u32> = Vec::new();
    for o in m {
        match o {
            Some(k) => cur.push(*k),
            None => {
                if !cur.is_empty() {
                    out.push(std::mem::take(&mut cur));
                }
            }
        }
    }
    if !cur.is_empty() {
        out.push(cur);
    }
    out
}

/// Ways to take items, which depend on the contents.
fn probe_of(m: &[Option<u32>], n: u64) -> u64 {
    let h = m.iter().rev().take(20).fold(m.len() as u64, |h, o| h.wrapping_mul(31).wrapping_add(o.map_or(0, |x| x as u64 + 1)));
    mix(h, n)
}

fn compare_deep<T: Elem>(v: &mut VecOption<T>, m: &Model, what: &str) -> Check {
    compare(v, m, what)?;
    let somes: Vec<(usize, u32)> = m.iter().enumerate().filter_map(|(i, o)| o.map(|k| (i, k))).collect();
    let runs = runs_of(m);
    let p = |n| probe_of(m, n);
    let w = |s: &str| format!("{}: {}", what, s);
    for n in [0, 10] {
        drive_all(&w("iter"), v.iter(), |o| o.map(|x| x.key()), m, p(n + 1))?;
        drive_all(&w("iter_mut"), v.iter_mut(), |o| o.map(|x| x.key()), m, p(n + 2))?;
        drive_all(&w("iter_some_index"), v.iter_some_index(), |(i, x)| (i, x.key()), &somes, p(n + 3))?;
        drive_all(&w("iter_some_index_mut"), v.iter_some_index_mut(), |(i, x)| (i, x.key()), &somes, p(n + 4))?;
        drive_all(&w("iter_runs"), v.iter_runs(), |r| r.iter().map(|x| x.key()).collect::<Vec<u32>>(), &runs, p(n + 5))?;
        drive_all(&w("iter_runs_mut"), v.iter_runs_mut(), |r| r.iter().map(|x| x.key()).collect::<Vec<u32>>(), &runs, p(n + 6))?;
    }
    let got: Vec<(usize, u32)> = v.iter_some_index().map(|(i, x)| (i, x.key())).collect();
    ensure_eq!(got, somes, "{}: iter_some_index", what);
    let got: Vec<(usize, u32)> = v.iter_some_index_mut().map(|(i, x)| (i, x.key())).collect();
    ensure_eq!(got, somes, "{}: iter_some_index_mut", what);
    let got: Model = v.iter_mut().map(|o| o.map(|x| x.key())).collect();
    ensure_eq!(got, *m, "{}: iter_mut", what);
    let got: Vec<Vec<u32>> = v.iter_runs().map(|r| r.iter().map(|x| x.key()).collect()).collect();
    ensure_eq!(got, runs, "{}: iter_runs", what);
    let got: Vec<Vec<u32>> = v.iter_runs_mut().map(|r| r.iter().map(|x| x.key()).collect()).collect();
    ensure_eq!(got, runs, "{}: iter_runs_mut", what);
    for i in 0..m.len() {
        ensure_eq!(v.get_ref(i).map(|x| x.key()), m[i], "{}: get_ref({})", what, i);
    }
    Ok(())
}

fn bounds(a: usize, b: usize, kind: u8, len: usize) -> ((Bound<usize>, Bound<usize>), usize, usize) {
    // `a <= b <= len`; kind selects the style of each bound
    let (s, s_eff) = match kind % 3 {
        0 => (Bound::Included(a), a),
        1 if a > 0 => (Bound::Excluded(a - 1), a),
        1 => (Bound::Included(a), a),
        _ => (Bound::Unbounded, 0),
    };
    let (e, e_eff) = match kind / 3 {
        0 => (Bound::Excluded(b), b),
        1 if b > 0 => (Bound::Included(b - 1), b),
        1 => (Bound::Excluded(b), b),
        _ => (Bound::Unbounded, len),
    };
    ((s, e), s_eff, e_eff)
}

pub struct Facts {
    mixed: bool,
    structural: bool,
    over32: bool,
    long: bool,
}

fn push_run<T: Elem>(v: &mut VecOption<T>, m: &mut Model, n: u32, bits: u32, style: u8) {
    for i in 0..n {
        let some = match style % 4 {
            0 => true,
            1 => false,
            _ => bits.rotate_left(i.wrapping_mul(7) + i / 32) & 1 == 1,
        };
        if some {
            let k = bits.wrapping_add(i) % 1000;
            v.push_some(T::make(k));
            m.push(Some(T::fold(k)));
        } else {
            v.push_none();
            m.push(None);
        }
    }
}

/// Operations, rarely on a long vector.
fn ops(n: usize) -> BoxedStrategy<Vec<Op>> {
    let long = || (200u16..3000, any::<u32>(), any::<u8>()).prop_map(|(a, b, c)| Op::PushLong(a, b, c));
    let big = (vec(long(), 1..4), vec(op(0), 1..16), vec(long(), 0..2), vec(op(0), 0..16)).prop_map(|(a, b, c, d)| a.into_iter().chain(b).chain(c).chain(d).collect());
    let huge = (vec((60_000u16..=65_535, any::<u32>(), any::<u8>()).prop_map(|(a, b, c)| Op::PushLong(a, b, c)), 1..3), vec(op(0), 0..5), long(), vec(op(0), 0..5))
        .prop_map(|(a, b, c, d)| a.into_iter().chain(b).chain(Some(c)).chain(d).collect());
    prop_oneof![10_000 => vec(op(1), 0..n), 40 => big, 1 => huge].boxed()
}

fn apply<T: Elem>(v: &mut VecOption<T>, m: &mut Model, op: &Op, f: &mut Facts, cx: &mut Ctx) -> Check {
    let len = m.len();
    let at = |i: u16| -> Option<usize> {
        if len == 0 {
            None
        } else {
            // all places of vectors with more than 65536, too
            Some(if len > 65536 { i as usize * 40507 % len } else { i as usize % len })
        }
    };
    if len >= 3 && m.iter().any(|o| o.is_some()) && m.iter().any(|o| o.is_none()) {
        f.mixed = true;
        if matches!(op, Op::Drain(..) | Op::Compact(_) | Op::Swap(..) | Op::CloneSwap | Op::CloneFrom(..) | Op::CloneKeep(_) | Op::Rebuild(_) | Op::PopSome) {
            f.structural = true;
        }
    }
    f.over32 |= len > 32;
    f.long |= len > 1000;
    match op {
        Op::Push(o) => {
            v.push(mk(*o));
            m.push(fo::<T>(*o));
        }
        Op::PushSome(k) => {
            v.push_some(T::make(*k));
            m.push(Some(T::fold(*k)));
        }
        Op::PushNone => {
            v.push_none();
            m.push(None);
        }
        Op::PushRun(n, bits, style) => push_run(v, m, *n as u32, *bits, *style),
        Op::PushLong(n, bits, style) => push_run(v, m, *n as u32, *bits, *style),
        Op::Pop => {
            let got = v.pop().map(|o| ko(o));
            ensure_eq!(got, m.pop(), "pop");
        }
        Op::PopSome => {
            let got = v.pop_some().map(|x| x.key());
            let mut exp = None;
            while let Some(o) = m.pop() {
                if o.is_some() {
                    exp = o;
                    break;
                }
            }
            ensure_eq!(got, exp, "pop_some");
        }
        Op::Set(i, o) => {
            if let Some(i) = at(*i) {
                v.set(i, mk(*o));
                m[i] = fo::<T>(*o);
            }
        }
        Op::SetSome(i, k) => {
            if let Some(i) = at(*i) {
                v.set_some(i, T::make(*k));
                m[i] = Some(T::fold(*k));
            }
        }
        Op::SetNone(i) => {
            if let Some(i) = at(*i) {
                v.set_none(i);
                m[i] = None;
            }
        }
        Op::Replace(i, o) => {
            if let Some(i) = at(*i) {
                let got = ko(v.replace(i, mk(*o)));
                ensure_eq!(got, std::mem::replace(&mut m[i], fo::<T>(*o)), "replace({})", i);
            }
        }
        Op::ReplaceSome(i, k) => {
            if let Some(i) = at(*i) {
                let got = ko(v.replace_some(i, T::make(*k)));
                ensure_eq!(got, m[i].replace(T::fold(*k)), "replace_some({})", i);
            }
        }
        Op::ReplaceNone(i) => {
            if let Some(i) = at(*i) {
                let got = ko(v.replace_none(i));
                ensure_eq!(got, m[i].take(), "replace_none({})", i);
            }
        }
        Op::Swap(i, j) => {
            if let (Some(i), Some(j)) = (at(*i), at(*j)) {
                v.swap(i, j);
                m.swap(i, j);
            }
        }
        Op::Get(i) => {
            if let Some(i) = at(*i) {
                ensure_eq!(v.get_ref(i).map(|x| x.key()), m[i], "get_ref({})", i);
                ensure_eq!(v.get_mut(i).map(|x| x.key()), m[i], "get_mut({})", i);
                ensure_eq!(ko(v.get_clone(i)), m[i], "get_clone({})", i);
                if let Some(got) = T::copy_at(v, i) {
                    ensure_eq!(got, m[i], "get_copy({})", i);
                }
            }
        }
        Op::Write(i, k) => {
            if let Some(i) = at(*i) {
                if let Some(x) = v.get_mut(i) {
                    x.put(*k);
                }
                if m[i].is_some() {
                    m[i] = Some(T::fold(*k));
                }
            }
        }
        Op::Extend(items, hint) => {
            let it = items.iter().map(|o| mk::<T>(*o));
            v.extend(source(it, items.len(), if *hint { 0 } else { 1 + items.len() as u32 }));
            m.extend(items.iter().map(|o| fo::<T>(*o)));
        }
        Op::Reserve(n) => v.reserve(*n as usize),
        Op::Compact(k) => {
            m.retain(|o| o.is_some());
            {
                let s = v.compact();
                let got: Model = s.iter().map(|x| Some(x.key())).collect();
                ensure_eq!(got, *m, "compact: slice");
                if !s.is_empty() {
                    let i = *k as usize % s.len();
                    s[i].put(777);
                    m[i] = Some(T::fold(777));
                }
            }
        }
        Op::Drain(a, b, kind, mode, take) => {
            let (mut a, mut b) = (*a as usize % (len + 1), *b as usize % (len + 1));
            if a > b {
                std::mem::swap(&mut a, &mut b);
            }
            let (r, s, e) = bounds(a, b, *kind, len);
            let exp: Model = m.drain(s..e).collect();
            let take = match mode {
                0 => exp.len() + 2,
                1 => 0,
                _ => *take as usize % (exp.len() + 1),
            };
            {
                let mut d = v.drain(r);
                if *mode == 3 {
                    drive("drain", &mut d, |o| ko(o), &exp, probe_of(&exp, take as u64))?;
                } else {
                    for i in 0..take {
                        let got = d.next().map(|o| ko(o));
                        ensure_eq!(got, exp.get(i).copied(), "drain({:?}) item {}", r, i);
                    }
                }
            }
            cx.label_if(e - s > 0 && e < len, "drain-middle");
            cx.label_if(take < exp.len(), "drain-partial");
        }
        Op::CloneFrom(items, into) => {
            let mut c: VecOption<T> = items.iter().map(|o| mk::<T>(*o)).collect();
            let cm: Model = items.iter().map(|o| o.map(T::fold)).collect();
            if *into {
                v.clone_from(&c);
                *m = cm.clone();
                compare(&mut c, &cm, "the source of clone_from")?;
            } else {
                c.clone_from(v);
                compare(&mut c, m, "the target of clone_from")?;
                compare(v, m, "the source of clone_from")?;
                std::mem::swap(v, &mut c);
            }
        }
        Op::CloneSwap => {
            let c = v.clone();
            *v = c;
        }
        Op::CloneKeep(ops) => {
            let mut c = v.clone();
            let mut cm = m.clone();
            compare(&mut c, &cm, "clone")?;
            for o in ops {
                apply(&mut c, &mut cm, o, f, cx)?;
                compare(&mut c, &cm, "clone after operations")?;
            }
            compare(v, m, "original after operations on its clone")?;
        }
        Op::Rebuild(kind) => {
            let old = std::mem::replace(v, VecOption::new());
            match kind {
                0 => *v = source(old.into_iter(), m.len(), 0).collect(),
                1 => *v = source(old.into_iter(), m.len(), 1 + m.len() as u32).collect(),
                2 => {
                    *v = VecOption::from_vec(old.some_into_vec());
                    m.retain(|o| o.is_some());
                }
                3 => {
                    let got: Vec<u32> = old.into_some_iter().map(|x| x.key()).collect();
                    let exp: Vec<u32> = m.iter().filter_map(|o| *o).collect();
                    ensure_eq!(got, exp, "into_some_iter");
                    m.clear();
                }
                4 => {
                    let mut n = VecOption::new_repeat_none(m.len());
                    compare(&mut n, &vec![None; m.len()], "new_repeat_none")?;
                    for (i, x) in old.into_iter().enumerate() {
                        n.set(i, x);
                    }
                    *v = n;
                }
                5 => {
                    let mut n = VecOption::with_capacity(m.len() / 2);
                    ensure_eq!(n.len(), 0, "with_capacity: len");
                    n.extend(source(old.into_iter(), m.len(), 1 + m.len() as u32));
                    *v = n;
                }
                6 => {
                    let vec = old.some_into_vec();
                    let got: Vec<u32> = vec.iter().map(|x| x.key()).collect();
                    let exp: Vec<u32> = m.iter().filter_map(|o| *o).collect();
                    ensure_eq!(got, exp, "some_into_vec");
                    m.clear();
                }
                7 => {
                    // stop half way: the rest is dropped with the iterator
                    let n = m.len() / 2;
                    let got: Model = old.into_iter().take(n).map(|o| ko(o)).collect();
                    ensure_eq!(got, m[..n].to_vec(), "into_iter");
                    m.clear();
                }
                8 => {
                    let exp: Vec<u32> = m.iter().filter_map(|o| *o).collect();
                    let n = exp.len() / 2;
                    let mut it = old.into_some_iter();
                    for i in 0..n {
                        ensure_eq!(it.next().map(|x| x.key()), Some(exp[i]), "into_some_iter item {}", i);
                    }
                    m.clear();
                }
                9 => {
                    drive_all("into_iter", old.into_iter(), |o| ko(o), &m[..], probe_of(m, 20))?;
                    m.clear();
                }
                10 => {
                    let exp: Vec<u32> = m.iter().filter_map(|o| *o).collect();
                    drive_all("into_some_iter", old.into_some_iter(), |x| x.key(), &exp, probe_of(m, 21))?;
                    m.clear();
                }
                _ => {
                    let mut it = old.into_iter();
                    for (i, o) in m.iter().enumerate() {
                        ensure_eq!(it.next().map(|o| ko(o)), Some(*o), "into_iter item {}", i);
                    }
                    ensure!(it.next().is_none(), "into_iter: more items than len");
                    ensure!(it.next().is_none(), "into_iter: item after the end");
                    m.clear();
                }
            }
        }
        Op::IterMut(k) => {
            for (i, o) in v.iter_mut().enumerate() {
                if let Some(x) = o {
                    x.put(k.wrapping_add(i as u32));
                }
            }
            for (i, o) in m.iter_mut().enumerate() {
                if let Some(x) = o {
                    *x = T::fold(k.wrapping_add(i as u32));
                }
            }
        }
        Op::IterSomeMut(k) => {
            for (i, x) in v.iter_some_index_mut() {
                x.put(k.wrapping_add(3 * i as u32));
            }
            for (i, o) in m.iter_mut().enumerate() {
                if let Some(x) = o {
                    *x = T::fold(k.wrapping_add(3 * i as u32));
                }
            }
        }
        Op::RunsMut => {
            for r in v.iter_runs_mut() {
                r.reverse();
            }
            let mut i = 0;
            while i < m.len() {
                if m[i].is_none() {
                    i += 1;
                    continue;
                }
                let s = i;
                while i < m.len() && m[i].is_some() {
                    i += 1;
                }
                m[s..i].reverse();
            }
        }
        Op::IterPartial(n) => {
            let n = *n as usize;
            let got: Model = v.iter().take(n).map(|o| o.map(|x| x.key())).collect();
            ensure_eq!(got, m.iter().take(n).copied().collect::<Model>(), "partial iter");
        }
        Op::Oob(kind, d) => {
            // close behind the end, or at the largest index there is
            let i = if *d < 64 { len + *d as usize } else { usize::MAX - (*d as usize - 64) };
            let above = i.saturating_add(1);
            let r = match kind {
                0 => catch(|| v.get_ref(i).is_some()).map(|_| ()),
                1 => catch(|| v.get_mut(i).is_some()).map(|_| ()),
                2 => catch(|| v.get_clone(i)).map(|_| ()),
                3 => catch(|| v.set(i, mk(Some(1)))),
                4 => catch(|| v.set_some(i, T::make(1))),
                5 => catch(|| v.set_none(i)),
                6 => catch(|| v.replace(i, None)).map(|_| ()),
                7 => catch(|| v.replace_some(i, T::make(2))).map(|_| ()),
                8 => catch(|| v.replace_none(i)).map(|_| ()),
                9 => catch(|| v.swap(i, 0)),
                10 => catch(|| v.swap(0, i)),
                11 => catch(|| v.swap(i, i)),
                12 => catch(|| drop(v.drain(0..above))),
                13 => catch(|| drop(v.drain(above..))),
                14 => catch(|| drop(v.drain(..=i))),
                16 => catch(|| drop(v.drain((Bound::Excluded(i), Bound::Unbounded)))),
                17 => catch(|| drop(v.drain((Bound::Excluded(i), Bound::Excluded(above))))),
                _ => {
                    if len < 2 {
                        return Ok(());
                    }
                    #[allow(clippy::reversed_empty_ranges)]
                    catch(|| drop(v.drain(1..0)))
                }
            };
            ensure!(r.is_err(), "an index out of range (case {}, index {}, len {}) did not panic", kind, i, len);
            compare_deep(v, m, "after an index out of range")?;
        }
    }
    Ok(())
}

fn run_history<T: Elem>(ops: &[Op], cx: &mut Ctx) -> Result<(VecOption<T>, Model), String> {
    let mut v: VecOption<T> = VecOption::new();
    let mut m: Model = Vec::new();
    let mut f = Facts { mixed: false, structural: false, over32: false, long: false };
    for (n, op) in ops.iter().enumerate() {
        apply(&mut v, &mut m, op, &mut f, cx).map_err(|e| format!("operation {} ({:?}): {}", n, op, e))?;
        compare(&mut v, &m, "").map_err(|e| format!("after operation {} ({:?}){}", n, op, e))?;
    }
    compare_deep(&mut v, &m, "at the end")?;
    cx.nt_if(f.mixed && f.structural);
    cx.label_if(f.over32, "len>32");
    cx.label_if(f.long, "len>1000");
    Ok((v, m))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct HistCase {
    ty: u8,
    ops: Vec<Op>,
}

struct Hist;
impl Part for Hist {
    type Case = HistCase;
    const NAME: &'static str = "history";
    fn cases(t: Tier) -> u64 {
        t.pick(500_000, 12_000_000)
    }
    fn strategy(t: Tier) -> BoxedStrategy<HistCase> {
        let n = t.pick(60, 120);
        (0u8..8, ops(n)).prop_map(|(ty, ops)| HistCase { ty, ops }).boxed()
    }
    fn check(c: &HistCase, cx: &mut Ctx) -> Check {
        match c.ty {
            0 => run_history::<u8>(&c.ops, cx).map(drop),
            1 | 4 => run_history::<u32>(&c.ops, cx).map(drop),
            2 | 5 => run_history::<String>(&c.ops, cx).map(drop),
            6 => run_history::<Block>(&c.ops, cx).map(drop),
            7 => run_history::<[u8; 7]>(&c.ops, cx).map(drop),
            _ => run_history::<Zst>(&c.ops, cx).map(drop),
        }
    }
}

// ---------------------------------------------------------------- ownership

#[derive(Default)]
struct Reg {
    /// per id: 1 alive, 0 dropped
    alive: Vec<u8>,
    live: usize,
    max_live: usize,
    errors: Vec<String>,
    clone_bomb: Option<u32>,
    drop_bomb: Option<u32>,
    iter_bomb: Option<u32>,
    fired: bool,
}
thread_local! {
    static REG: RefCell<Reg> = RefCell::new(Reg::default());
}

fn reg<R>(f: impl FnOnce(&mut Reg) -> R) -> R {
    REG.with(|r| f(&mut r.borrow_mut()))
}

/// An element that knows whether it is alive.
struct Tr {
    id: u32,
    key: Box<u32>,
    check: u32,
}
const CHECK: u32 = 0x51F0_C0DE;

impl Tr {
    fn new(k: u32) -> Tr {
        let id = reg(|r| {
            r.alive.push(1);
            r.live += 1;
            r.max_live = r.max_live.max(r.live);
            r.alive.len() as u32 - 1
        });
        Tr { id, key: Box::new(k), check: CHECK ^ id }
    }
    fn valid(&self) -> bool {
        self.check == CHECK ^ self.id && reg(|r| r.alive.get(self.id as usize) == Some(&1))
    }
}
fn tick(bomb: impl FnOnce(&mut Reg) -> &mut Option<u32>) -> bool {
    reg(|r| {
        let b = bomb(r);
        match b {
            Some(0) => {
                *b = None;
                r.fired = true;
                true
            }
            Some(n) => {
                *n -= 1;
                false
            }
            None => false,
        }
    })
}
fn clone_tick() {
    if tick(|r| &mut r.clone_bomb) {
        panic!("injected: clone");
    }
}
/// An iterator that values are taken from gives its next one.
fn iter_tick() {
    if tick(|r| &mut r.iter_bomb) {
        panic!("injected: iterator");
    }
}
fn source<I: Iterator>(it: I, len: usize, kind: u32) -> Source<impl Iterator<Item = I::Item>> {
    Source::new(
        it.map(|x| {
            iter_tick();
            x
        }),
        len,
        kind,
    )
}
fn drop_tick() {
    if !std::thread::panicking() && tick(|r| &mut r.drop_bomb) {
        panic!("injected: drop");
    }
}
impl Clone for Tr {
    fn clone(&self) -> Tr {
        if !self.valid() {
            reg(|r| r.errors.push("clone of a value that is not alive".into()));
            return Tr::new(0);
        }
        clone_tick();
        Tr::new(*self.key)
    }
}
impl Drop for Tr {
    fn drop(&mut self) {
        let ok = self.check == CHECK ^ self.id
            && reg(|r| match r.alive.get_mut(self.id as usize) {
                Some(a) if *a == 1 => {
                    *a = 0;
                    r.live -= 1;
                    true
                }
                _ => false,
            });
        if !ok {
            // forget the box: it is not ours
            let b = std::mem::replace(&mut self.key, Box::new(0));
            std::mem::forget(b);
            reg(|r| r.errors.push(format!("drop of a value that is not alive (id {:#x})", self.id)));
            return;
        }
        self.check = 0;
        drop_tick();
    }
}
impl Elem for Tr {
    fn make(k: u32) -> Tr {
        Tr::new(k)
    }
    fn fold(k: u32) -> u32 {
        k
    }
    fn key(&self) -> u32 {
        if self.valid() {
            *self.key
        } else {
            reg(|r| r.errors.push(format!("a value that is not alive is visible (id {:#x})", self.id)));
            0xBAD0_BAD0
        }
    }
    fn put(&mut self, k: u32) {
        *self.key = k;
    }
}

/// Elements whose lifes are counted.
trait Owned: Elem {
    fn valid(&self) -> bool;
    /// None: the elements cannot be told apart
    fn id(&self) -> Option<u32>;
}
impl Owned for Tr {
    fn valid(&self) -> bool {
        Tr::valid(self)
    }
    fn id(&self) -> Option<u32> {
        Some(self.id)
    }
}

/// An element without size, of which only the number is known.
struct Zt;
impl Zt {
    fn new() -> Zt {
        reg(|r| {
            r.live += 1;
            r.max_live = r.max_live.max(r.live);
        });
        Zt
    }
}
impl Clone for Zt {
    fn clone(&self) -> Zt {
        if !self.valid() {
            reg(|r| r.errors.push("clone of a value of which none is alive".into()));
        }
        clone_tick();
        Zt::new()
    }
}
impl Drop for Zt {
    fn drop(&mut self) {
        if !self.valid() {
            reg(|r| r.errors.push("more drops than values".into()));
            return;
        }
        reg(|r| r.live -= 1);
        drop_tick();
    }
}
impl Elem for Zt {
    fn make(_: u32) -> Zt {
        Zt::new()
    }
    fn fold(_: u32) -> u32 {
        0
    }
    fn key(&self) -> u32 {
        if !self.valid() {
            reg(|r| r.errors.push("a value is visible, but none is alive".into()));
        }
        0
    }
    fn put(&mut self, _: u32) {}
}
impl Owned for Zt {
    fn valid(&self) -> bool {
        reg(|r| r.live > 0)
    }
    fn id(&self) -> Option<u32> {
        None
    }
}

/// A large element at addresses that are multiples of 64.
#[derive(Clone)]
#[repr(align(64))]
struct Wide {
    head: u64,
    tr: Tr,
    tail: [u64; 13],
}
impl Elem for Wide {
    fn make(k: u32) -> Wide {
        let tr = Tr::make(k);
        let h = tr.id as u64;
        Wide { head: h, tr, tail: [!h; 13] }
    }
    fn fold(k: u32) -> u32 {
        k
    }
    fn key(&self) -> u32 {
        let k = self.tr.key();
        if self.tail != [!self.head; 13] || (self as *const Wide as usize) % 64 != 0 {
            reg(|r| r.errors.push(format!("a value was torn (id {:#x})", self.tr.id)));
        }
        k
    }
    fn put(&mut self, k: u32) {
        self.tr.put(k)
    }
}
impl Owned for Wide {
    fn valid(&self) -> bool {
        self.tr.valid()
    }
    fn id(&self) -> Option<u32> {
        self.tr.id()
    }
}

/// The number of different values that are visible.
fn distinct<T: Owned>(v: &VecOption<T>) -> usize {
    let ids: HashSet<u32> = v.iter().flatten().filter_map(|x| x.id()).collect();
    ids.len() + v.iter().flatten().filter(|x| x.id().is_none()).count().min(reg(|r| r.live))
}

fn reg_errors() -> Check {
    reg(|r| match r.errors.first() {
        Some(e) => Err(e.clone()),
        None => Ok(()),
    })
}

fn reg_reset() {
    reg(|r| *r = Reg::default());
}

/// Element types of the ownership parts: tracked, without size, large.
fn ty() -> BoxedStrategy<u8> {
    prop_oneof![4 => Just(0u8), 1 => Just(1u8), 1 => Just(2u8)].boxed()
}

struct Own;
impl Part for Own {
    type Case = HistCase;
    const NAME: &'static str = "ownership";
    fn cases(t: Tier) -> u64 {
        t.pick(250_000, 6_000_000)
    }
    fn strategy(t: Tier) -> BoxedStrategy<HistCase> {
        let n = t.pick(45, 90);
        (ty(), ops(n)).prop_map(|(ty, ops)| HistCase { ty, ops }).boxed()
    }
    fn check(c: &HistCase, cx: &mut Ctx) -> Check {
        reg_reset();
        let r = match c.ty {
            1 => own_history::<Zt>(c, cx),
            2 => own_history::<Wide>(c, cx),
            _ => own_history::<Tr>(c, cx),
        };
        let e = reg_errors();
        reg_reset();
        e.and(r)
    }
}

fn own_history<T: Owned>(c: &HistCase, cx: &mut Ctx) -> Check {
    let (mut v, m) = run_history::<T>(&c.ops, &mut Ctx::default())?;
    reg_errors()?;
    let expected = m.iter().filter(|o| o.is_some()).count();
    let live = reg(|r| r.live);
    ensure_eq!(live, expected, "values alive while the vector holds {} of them", expected);
    ensure_eq!(distinct(&v), expected, "distinct values in the vector");
    compare(&mut v, &m, "")?;
    cx.label_if(live > 0, "dropped-by-vector");
    cx.nt_if(live > 0 && reg(|r| r.max_live) >= 3);
    drop(v);
    reg_errors()?;
    ensure_eq!(reg(|r| r.live), 0, "values alive after the vector was dropped");
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct FaultCase {
    ops: Vec<Op>,
    /// 0: panic in the k-th clone; 1: panic in the k-th drop; 2: panic in an iterator that values
    /// are taken from
    kind: u8,
    k: u32,
    /// the fault is armed before this operation
    arm: u16,
    tail: Vec<Op>,
    /// element type
    #[serde(default)]
    ty: u8,
}

struct OwnFault;
impl Part for OwnFault {
    type Case = FaultCase;
    const NAME: &'static str = "ownership-with-panics";
    fn cases(t: Tier) -> u64 {
        t.pick(250_000, 6_000_000)
    }
    fn strategy(_: Tier) -> BoxedStrategy<FaultCase> {
        (vec(op(1), 1..25), prop_oneof![3 => Just(0u8), 3 => Just(1u8), 2 => Just(2u8)], prop_oneof![3 => 0u32..6, 1 => 0u32..60], any::<u16>(), vec(op(1), 0..10), ty())
            .prop_map(|(ops, kind, k, arm, tail, ty)| FaultCase { ops, kind, k, arm, tail, ty })
            .boxed()
    }
    fn check(c: &FaultCase, cx: &mut Ctx) -> Check {
        reg_reset();
        let r = match c.ty {
            1 => own_fault::<Zt>(c, cx),
            2 => own_fault::<Wide>(c, cx),
            _ => own_fault::<Tr>(c, cx),
        };
        let e = reg_errors();
        reg_reset();
        e.and(r)
    }
}

fn own_fault<T: Owned>(c: &FaultCase, cx: &mut Ctx) -> Check {
    let mut v: VecOption<T> = VecOption::new();
    let mut m: Model = Vec::new();
    let mut f = Facts { mixed: false, structural: false, over32: false, long: false };
    let arm = c.arm as usize % c.ops.len();
    let resync = |v: &mut VecOption<T>, m: &mut Model| -> Check {
        // The contents are unspecified after the panic, but they must be valid.
        let got: Model = v.iter().map(|o| o.map(|x| x.key())).collect();
        reg_errors().map_err(|e| format!("after the injected panic: {}", e))?;
        ensure_eq!(got.len(), v.len(), "after the injected panic: items");
        ensure_eq!(distinct(v), got.iter().flatten().count(), "after the injected panic: distinct values");
        *m = got;
        Ok(())
    };
    for (n, op) in c.ops.iter().chain(c.tail.iter()).enumerate() {
        if n == arm {
            reg(|r| {
                match c.kind {
                    0 => r.clone_bomb = Some(c.k),
                    1 => r.drop_bomb = Some(c.k),
                    _ => r.iter_bomb = Some(c.k),
                }
            });
        }
        let fired_before = reg(|r| r.fired);
        let res = catch(|| apply(&mut v, &mut m, op, &mut f, &mut Ctx::default()));
        let fired = reg(|r| r.fired) && !fired_before;
        reg_errors().map_err(|e| format!("operation {} ({:?}): {}", n, op, e))?;
        if fired {
            // Whatever the operation reported, the contents are now unspecified.
            resync(&mut v, &mut m)?;
            continue;
        }
        match res {
            Ok(r) => r.map_err(|e| format!("operation {} ({:?}): {}", n, op, e))?,
            Err(p) => return Err(format!("operation {} ({:?}): panic: {}", n, op, p)),
        }
        compare(&mut v, &m, "").map_err(|e| format!("after operation {} ({:?}){}", n, op, e))?;
    }
    let fired_before = reg(|r| r.fired);
    let max = reg(|r| r.max_live);
    let held = reg(|r| r.live);
    let _ = catch(move || drop(v));
    let fired = reg(|r| r.fired);
    cx.nt_if(fired && max >= 3);
    cx.label_if(fired && c.kind == 0, "clone-panic");
    cx.label_if(fired && c.kind == 2, "iterator-panic");
    cx.label_if(fired && c.kind == 1 && fired_before, "drop-panic-in-operation");
    cx.label_if(fired && !fired_before && held > 1, "drop-panic-in-vector-drop");
    if !fired {
        ensure_eq!(reg(|r| r.live), 0, "values alive at the end without a panic");
    }
    Ok(())
}

/// The consuming iterators and drains, stopped at any point, or forgotten.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ConsumeCase {
    items: Vec<Option<u32>>,
    how: u8,
    take: u16,
    a: u16,
    b: u16,
    #[serde(default)]
    ty: u8,
}

struct Consume;
impl Part for Consume {
    type Case = ConsumeCase;
    const NAME: &'static str = "consuming-iterators";
    fn cases(t: Tier) -> u64 {
        t.pick(400_000, 4_000_000)
    }
    fn strategy(_: Tier) -> BoxedStrategy<ConsumeCase> {
        (prop_oneof![800 => vec(oval(), 0usize..12), 200 => vec(oval(), 20usize..80), 1 => vec(oval(), 200usize..3000)], 0u8..8, any::<u16>(), any::<u16>(), any::<u16>(), ty())
            .prop_map(|(items, how, take, a, b, ty)| ConsumeCase { items, how, take, a, b, ty })
            .boxed()
    }
    fn check(c: &ConsumeCase, cx: &mut Ctx) -> Check {
        reg_reset();
        let r = match c.ty {
            1 => consume::<Zt>(c, cx),
            2 => consume::<Wide>(c, cx),
            _ => consume::<Tr>(c, cx),
        };
        let e = reg_errors();
        reg_reset();
        e.and(r)
    }
}

fn consume<T: Owned>(c: &ConsumeCase, cx: &mut Ctx) -> Check {
    let items: Model = c.items.iter().map(|o| o.map(T::fold)).collect();
    let mut v: VecOption<T> = items.iter().map(|o| mk::<T>(*o)).collect();
    let n = items.len();
    let somes = items.iter().filter(|o| o.is_some()).count();
    let take = c.take as usize % (n + 2);
    cx.nt_if(somes >= 3 && somes < n);
    match c.how {
        0 => {
            let mut it = v.into_iter();
            let take = if c.b % 3 == 0 {
                drive("into_iter", &mut it, |o| ko(o), &items, mix(c.a as u64, c.b as u64))?
            } else {
                for i in 0..take {
                    ensure_eq!(it.next().map(|o| ko(o)), items.get(i).copied(), "into_iter {}", i);
                }
                take
            };
            let left = items.iter().skip(take).filter(|o| o.is_some()).count();
            ensure_eq!(reg(|r| r.live), left, "alive while into_iter is part-way");
        }
        1 => {
            let exp: Vec<u32> = items.iter().filter_map(|o| *o).collect();
            let mut it = v.into_some_iter();
            let take = if c.b % 3 == 0 {
                drive("into_some_iter", &mut it, |x| x.key(), &exp, mix(c.a as u64, c.b as u64))?
            } else {
                for i in 0..take {
                    ensure_eq!(it.next().map(|x| x.key()), exp.get(i).copied(), "into_some_iter {}", i);
                }
                take
            };
            ensure_eq!(reg(|r| r.live), somes.saturating_sub(take), "alive while into_some_iter is part-way");
        }
        2 => {
            let exp: Vec<u32> = items.iter().filter_map(|o| *o).collect();
            let got = v.some_into_vec();
            ensure_eq!(reg(|r| r.live), somes, "alive after some_into_vec");
            ensure_eq!(got.iter().map(|x| x.key()).collect::<Vec<_>>(), exp, "some_into_vec");
            drop(got);
        }
        3 | 4 => {
            let (mut a, mut b) = (c.a as usize % (n + 1), c.b as usize % (n + 1));
            if a > b {
                std::mem::swap(&mut a, &mut b);
            }
            let take = c.take as usize % (b - a + 1);
            {
                let mut d = v.drain(a..b);
                if c.take % 3 == 0 {
                    drive("drain", &mut d, |o| ko(o), &items[a..b], mix(c.take as u64, c.a as u64))?;
                } else {
                    for i in 0..take {
                        ensure_eq!(d.next().map(|o| ko(o)), Some(items[a + i]), "drain {}", i);
                    }
                }
                if c.how == 4 {
                    std::mem::forget(d);
                    reg_errors()?;
                    // The vector is in an unspecified but valid state.
                    for x in v.iter().flatten() {
                        ensure!(x.valid(), "after a forgotten drain: a visible value is not alive");
                    }
                    ensure_eq!(distinct(&v), v.iter().flatten().count(), "after a forgotten drain: distinct values");
                    drop(v);
                    return reg_errors();
                }
            }
            let mut exp = items.clone();
            exp.drain(a..b);
            compare_deep(&mut v, &exp, "after drain")?;
            let left = exp.iter().filter(|o| o.is_some()).count();
            ensure_eq!(reg(|r| r.live), left, "alive after drain");
            drop(v);
        }
        5 => {
            let s = v.compact().len();
            ensure_eq!(s, somes, "compact");
            ensure_eq!(reg(|r| r.live), somes, "alive after compact");
            v.push_none();
            drop(v);
        }
        6 => {
            let c2 = v.clone();
            ensure_eq!(reg(|r| r.live), 2 * somes, "alive after clone");
            if c.take % 2 == 0 {
                drop(v);
                ensure_eq!(reg(|r| r.live), somes, "alive after the original is dropped");
                ensure_eq!(c2.iter().map(|o| o.map(|x| x.key())).collect::<Vec<_>>(), items, "clone");
                drop(c2);
            } else {
                drop(c2);
                ensure_eq!(reg(|r| r.live), somes, "alive after the clone is dropped");
                ensure_eq!(v.iter().map(|o| o.map(|x| x.key())).collect::<Vec<_>>(), items, "original");
                drop(v);
            }
        }
        _ => {
            for i in 0..n {
                let j = (i * 7 + take) % n;
                v.swap(i, j);
                ensure_eq!(reg(|r| r.live), somes, "alive after swap");
            }
            while let Some(x) = v.pop_some() {
                ensure!(x.valid(), "pop_some returned a value that is not alive");
            }
        }
    }
    reg_errors()?;
    ensure_eq!(reg(|r| r.live), 0, "values alive at the end");
    Ok(())
}

// ---------------------------------------------------------------- laws

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct LawCase {
    base: Vec<Option<u8>>,
    /// how b and c differ from base: (position, new value or None), length changes
    eb: Vec<(u16, Option<u8>)>,
    ec: Vec<(u16, Option<u8>)>,
    cut_b: u8,
    cut_c: u8,
    garbage: u8,
}

fn law_strategy() -> BoxedStrategy<LawCase> {
    let o = || prop_oneof![2 => (0u8..4).prop_map(Some), 1 => Just(None)];
    let e = || vec((any::<u16>(), o()), 0..3);
    let cut = || prop_oneof![4 => Just(0u8), 1 => 1u8..3];
    (prop_oneof![2500 => vec(o(), 0usize..6), 500 => vec(o(), 30usize..70), 1 => vec(o(), 200usize..3000)], e(), e(), cut(), cut(), any::<u8>())
        .prop_map(|(base, eb, ec, cut_b, cut_c, garbage)| LawCase { base, eb, ec, cut_b, cut_c, garbage })
        .boxed()
}

fn edit(base: &[Option<u8>], e: &[(u16, Option<u8>)], cut: u8) -> Vec<Option<u8>> {
    let mut v = base.to_vec();
    for (i, o) in e {
        if !v.is_empty() {
            let n = v.len();
            v[*i as usize % n] = *o;
        }
    }
    let n = v.len().saturating_sub(cut as usize);
    v.truncate(n);
    v
}

/// Builds the same contents through different histories, so that the memory behind `None` differs.
fn build<T: Clone>(items: &[Option<T>], style: u8, junk: T) -> VecOption<T> {
    match style % 4 {
        0 => items.iter().cloned().collect(),
        1 => {
            let mut v = VecOption::from_vec(vec![junk; items.len()]);
            for (i, o) in items.iter().enumerate() {
                v.set(i, o.clone());
            }
            v
        }
        2 => {
            let mut v = VecOption::new();
            v.push(Some(junk));
            v.push(None);
            for o in items {
                v.push(o.clone());
            }
            drop(v.drain(0..2));
            v
        }
        _ => {
            let mut v = VecOption::new_repeat_none(items.len());
            for (i, o) in items.iter().enumerate() {
                if let Some(x) = o {
                    v.set_some(i, x.clone());
                }
            }
            v.clone()
        }
    }
}

fn hash_of<T: Hash>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

struct Laws;
impl Part for Laws {
    type Case = LawCase;
    const NAME: &'static str = "order-and-hash";
    fn cases(t: Tier) -> u64 {
        t.pick(1_000_000, 20_000_000)
    }
    fn strategy(_: Tier) -> BoxedStrategy<LawCase> {
        law_strategy()
    }
    fn check(c: &LawCase, cx: &mut Ctx) -> Check {
        use std::cmp::Ordering::*;
        let lists = [c.base.clone(), edit(&c.base, &c.eb, c.cut_b), edit(&c.base, &c.ec, c.cut_c)];
        let vs: Vec<VecOption<u8>> = lists.iter().enumerate().map(|(i, l)| build(l, c.garbage >> (2 * i), 99)).collect();
        cx.nt_if((0..3).any(|i| (0..i).any(|j| lists[i].len() == lists[j].len() && lists[i].len() >= 2)));
        for i in 0..3 {
            for j in 0..3 {
                let (a, b) = (&vs[i], &vs[j]);
                let (la, lb) = (&lists[i], &lists[j]);
                let eq = la == lb;
                cx.label_if(i < j && eq, "equal-pair");
                ensure_eq!(a == b, eq, "equality of {:?} and {:?}", la, lb);
                ensure_eq!(a != b, !eq, "inequality of {:?} and {:?}", la, lb);
                let o = a.cmp(b);
                ensure_eq!(a.partial_cmp(b), Some(o), "partial_cmp of {:?} and {:?}", la, lb);
                ensure_eq!(o == Equal, eq, "cmp == Equal for {:?} and {:?}", la, lb);
                ensure_eq!(b.cmp(a), o.reverse(), "antisymmetry for {:?} and {:?}", la, lb);
                ensure_eq!(a < b, o == Less, "< for {:?} and {:?}", la, lb);
                ensure_eq!((a <= b, a > b, a >= b), (o != Greater, o == Greater, o != Less), "<=, >, >= for {:?} and {:?}", la, lb);
                if i < j {
                    let (x, y) = (a.max(b), a.min(b));
                    ensure!(if o == Greater { x == a && y == b } else { x == b && y == a }, "max and min of {:?} and {:?}", la, lb);
                    let mut t = build(la, c.garbage >> 5, 7);
                    t.clone_from(b);
                    ensure!(t == *b && t.cmp(b) == Equal && hash_of(&t) == hash_of(b), "{:?} overwritten with a copy of {:?}", la, lb);
                }
                if la.len() == lb.len() {
                    ensure_eq!(o, la.cmp(lb), "order of {:?} and {:?}", la, lb);
                }
                if eq {
                    ensure_eq!(hash_of(a), hash_of(b), "hash of equal vectors {:?}", la);
                }
                for k in 0..3 {
                    let (bk, ak) = (b.cmp(&vs[k]), a.cmp(&vs[k]));
                    if o != Greater && bk != Greater {
                        ensure!(ak != Greater, "transitivity for {:?}, {:?}, {:?}", la, lb, lists[k]);
                        if o == Less || bk == Less {
                            ensure_eq!(ak, Less, "transitivity for {:?}, {:?}, {:?}", la, lb, lists[k]);
                        }
                    }
                }
            }
        }
        // Sets and maps built on these laws.
        let hs: HashSet<&VecOption<u8>> = vs.iter().collect();
        let ms: HashSet<&Vec<Option<u8>>> = lists.iter().collect();
        ensure_eq!(hs.len(), ms.len(), "distinct vectors in a hash set");
        Ok(())
    }
}

/// Elements that are only partially ordered (floats with NaN).
struct LawsPartial;
impl Part for LawsPartial {
    type Case = LawCase;
    const NAME: &'static str = "partial-order";
    fn cases(t: Tier) -> u64 {
        t.pick(400_000, 4_000_000)
    }
    fn strategy(_: Tier) -> BoxedStrategy<LawCase> {
        law_strategy()
    }
    fn check(c: &LawCase, cx: &mut Ctx) -> Check {
        let fl = |l: Vec<Option<u8>>| -> Vec<Option<f64>> {
            l.into_iter().map(|o| o.map(|k| if k == 3 { f64::NAN } else { k as f64 - 1.0 })).collect()
        };
        let la = fl(c.base.clone());
        let lb = fl(edit(&c.base, &c.eb, c.cut_b));
        let (a, b) = (build(&la, c.garbage, 5.0), build(&lb, c.garbage >> 2, f64::NAN));
        cx.nt_if(la.len() == lb.len() && la.len() >= 2);
        ensure_eq!(a == b, la == lb, "equality of {:?} and {:?}", la, lb);
        // the same object on both sides
        let same = |v: &VecOption<f64>, w: &VecOption<f64>| (v == w, v.partial_cmp(w));
        ensure_eq!(same(&a, &a), (la == la, la.partial_cmp(&la)), "equality and order of {:?} and itself", la);
        if la.len() == lb.len() {
            let e = la.partial_cmp(&lb);
            cx.label_if(e.is_none(), "unordered");
            ensure_eq!(a.partial_cmp(&b), e, "partial_cmp of {:?} and {:?}", la, lb);
            ensure_eq!((a < b, a <= b, a > b, a >= b, a != b), (la < lb, la <= lb, la > lb, la >= lb, la != lb), "<, <=, >, >=, != for {:?} and {:?}", la, lb);
        } else {
            let o = a.partial_cmp(&b);
            ensure!(o != Some(std::cmp::Ordering::Equal), "different lengths compare equal");
            ensure_eq!(b.partial_cmp(&a), o.map(|x| x.reverse()), "antisymmetry of {:?} and {:?}", la, lb);
        }
        Ok(())
    }
}
