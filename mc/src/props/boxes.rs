//! C12 bounding boxes, C13 pan-and-zoom transforms.
use crate::ensure;
use crate::for_2d;
use crate::for_3d;
use crate::fw::*;
use crate::geo::*;
use linestring::linestring_2d::{Aabb2, Line2, SimpleAffine};
use linestring::linestring_3d::{Aabb3, Line3};
use linestring::LinestringError;
use vector_traits::glam::{DVec2, DVec3};
use vector_traits::{GenericVector2, GenericVector3, HasXY};

/// reference box: both corners
type B = Option<(P3, P3)>;
fn add(b: B, p: P3) -> B {
    Some(match b {
        None => (p, p),
        Some((l, h)) => (
            (l.0.min(p.0), l.1.min(p.1), l.2.min(p.2)),
            (h.0.max(p.0), h.1.max(p.1), h.2.max(p.2)),
        ),
    })
}
fn inside(b: B, p: P3) -> bool {
    b.is_some_and(|(l, h)| {
        l.0 <= p.0 && p.0 <= h.0 && l.1 <= p.1 && p.1 <= h.1 && l.2 <= p.2 && p.2 <= h.2
    })
}

/// One step of a history of a bounding box.
#[derive(Clone, Debug)]
enum Op {
    Point(P3),
    /// several at once, possibly none
    Points(Vec<P3>),
    /// another box, around these points
    Join(Vec<P3>),
    /// replaced by the box around these points
    With(Vec<P3>),
    /// replaced by the default box
    Reset,
    /// a growing map of the coordinates: x -> k*x + d
    Apply(i64, P3),
}

fn step(b: B, op: &Op) -> B {
    match op {
        Op::Point(p) => add(b, *p),
        Op::Points(v) | Op::Join(v) => v.iter().fold(b, |b, p| add(b, *p)),
        Op::With(v) => v.iter().fold(None, |b, p| add(b, *p)),
        Op::Reset => None,
        Op::Apply(k, d) => b.map(|(l, h)| {
            let m = |p: P3| (k * p.0 + d.0, k * p.1 + d.1, k * p.2 + d.2);
            (m(l), m(h))
        }),
    }
}

fn flat(p: P3) -> P {
    (p.0, p.1)
}
fn i2<T: HasXY>(p: T) -> P3 {
    int2(p).map(|p| (p.0, p.1, 0)).unwrap_or((i64::MIN, 0, 0))
}

/// everything that can be seen of a box in the plane, against the reference
fn look2<T: GenericVector2>(n: &str, a: &Aabb2<T>, b: B, query: &[P], st: &mut Local) {
    let b: B = b.map(|(l, h)| ((l.0, l.1, 0), (h.0, h.1, 0)));
    st.calls += 8;
    ensure!(
        st,
        a.low().map(i2) == b.map(|b| b.0),
        "{n}: low {:?}, expected {b:?}",
        a.low()
    );
    ensure!(
        st,
        a.high().map(i2) == b.map(|b| b.1),
        "{n}: high {:?}, expected {b:?}",
        a.high()
    );
    ensure!(
        st,
        a.min_max().map(|m| (i2(m.0), i2(m.1))) == b,
        "{n}: min_max {:?}, expected {b:?}",
        a.min_max()
    );
    let e = a.extents().map(|e| (i2(e.0), i2(e.1), i2(e.2)));
    ensure!(
        st,
        e == b.map(|(l, h)| (l, h, (h.0 - l.0, h.1 - l.1, 0))),
        "{n}: extents {e:?}, expected {b:?}"
    );
    let c = a.center().map(un2);
    ensure!(
        st,
        c == b.map(|(l, h)| ((l.0 + h.0) as f64 / 2.0, (l.1 + h.1) as f64 / 2.0)),
        "{n}: center {c:?} of {b:?}"
    );
    let out = b.map(|(l, h)| {
        [
            (l.0, l.1, 0),
            (h.0, l.1, 0),
            (h.0, h.1, 0),
            (l.0, h.1, 0),
            (l.0, l.1, 0),
        ]
        .to_vec()
    });
    let hull: Option<Vec<P3>> = a
        .convex_hull::<T>()
        .map(|v| v.into_iter().map(i2).collect());
    ensure!(st, hull == out, "{n}: convex_hull {hull:?} of {b:?}");
    let ls: Vec<P3> = Vec::<T>::from(*a).into_iter().map(i2).collect();
    ensure!(
        st,
        ls == out.unwrap_or_default(),
        "{n}: outline {ls:?} of {b:?}"
    );
    ensure!(st, *a == *a, "{n}: {a:?} is not equal to itself");
    for q in query {
        st.calls += 1;
        let got = a.contains_point_inclusive(m2(*q));
        ensure!(
            st,
            got == inside(b, (q.0, q.1, 0)),
            "{n}: contains_point {q:?} in {b:?}: {got}"
        );
    }
}
fn look3<T: GenericVector3>(n: &str, a: &Aabb3<T>, b: B, query: &[P3], st: &mut Local) {
    st.calls += 5;
    let i = |p: T| int3(p).unwrap_or((i64::MIN, 0, 0));
    ensure!(
        st,
        a.get_low().map(i) == b.map(|b| b.0),
        "{n}: low {:?}, expected {b:?}",
        a.get_low()
    );
    ensure!(
        st,
        a.get_high().map(i) == b.map(|b| b.1),
        "{n}: high {:?}, expected {b:?}",
        a.get_high()
    );
    let e = a.extents().map(|e| (i(e.0), i(e.1), i(e.2)));
    ensure!(
        st,
        e == b.map(|(l, h)| (l, h, (h.0 - l.0, h.1 - l.1, h.2 - l.2))),
        "{n}: extents {e:?}, expected {b:?}"
    );
    let c = a.center().map(un3);
    let w = b.map(|(l, h)| {
        (
            (l.0 + h.0) as f64 / 2.0,
            (l.1 + h.1) as f64 / 2.0,
            (l.2 + h.2) as f64 / 2.0,
        )
    });
    ensure!(st, c == w, "{n}: center {c:?} of {b:?}");
    for q in query {
        st.calls += 1;
        let got = a.contains_point_inclusive(m3(*q));
        ensure!(
            st,
            got == inside(b, *q),
            "{n}: contains_point {q:?} in {b:?}: {got}"
        );
    }
}

fn run2<T: GenericVector2>(n: &str, ops: &[Op], query: &[P], st: &mut Local) {
    let mut a = Aabb2::<T>::default();
    let mut b: B = None;
    for op in ops {
        match op {
            Op::Point(p) => a.update_with_point(m2(flat(*p))),
            Op::Points(v) => {
                a.update_with_points(&v.iter().map(|p| m2(flat(*p))).collect::<Vec<T>>())
            }
            Op::Join(v) => a.update_with_aabb(Aabb2::with_points(
                &v.iter().map(|p| m2(flat(*p))).collect::<Vec<T>>(),
            )),
            Op::With(v) => {
                let v: Vec<T> = v.iter().map(|p| m2(flat(*p))).collect();
                a = Aabb2::with_points(&v);
                let c = Aabb2::from(v.iter());
                ensure!(
                    st,
                    a == c,
                    "{n}: with_points {a:?}, from the same points one by one {c:?}"
                );
                if v.len() == 1 {
                    let c = Aabb2::new(v[0]);
                    ensure!(st, a == c, "{n}: with_points {a:?}, new {c:?}");
                }
            }
            Op::Reset => a = Aabb2::default(),
            Op::Apply(k, d) => {
                let (k, d): (f64, T) = (*k as f64, m2(flat(*d)));
                a.apply(&|p: T| T::new_2d(p.x() * sc(k) + d.x(), p.y() * sc(k) + d.y()))
            }
        }
        b = step(b, op);
        look2(n, &a, b, query, st);
        if st.failed() {
            return;
        }
        st.state(&b);
    }
}
fn run3<T: GenericVector3>(n: &str, ops: &[Op], query: &[P3], st: &mut Local) {
    let mut a = Aabb3::<T>::default();
    let mut b: B = None;
    for op in ops {
        match op {
            Op::Point(p) => a.update_with_point(m3(*p)),
            Op::Points(v) => a.update_with_points(&ms3::<T>(v)),
            Op::Join(v) => a.update_with_aabb(Aabb3::with_points(&ms3::<T>(v))),
            Op::With(v) => a = Aabb3::with_points(&ms3::<T>(v)),
            Op::Reset => a = Aabb3::default(),
            Op::Apply(k, d) => {
                let (k, d): (f64, T) = (*k as f64, m3(*d));
                a.apply(&|p: T| {
                    T::new_3d(
                        p.x() * sc(k) + d.x(),
                        p.y() * sc(k) + d.y(),
                        p.z() * sc(k) + d.z(),
                    )
                })
            }
        }
        b = step(b, op);
        look3(n, &a, b, query, st);
        if st.failed() {
            return;
        }
        st.state(&b);
    }
}

/// the operations of the histories, over a few corner points
fn ops() -> Vec<Op> {
    let c = [(0, 0, 0), (3, -2, 1), (-1, 4, -3), (2, 2, 5), (-2, -5, 2)];
    let mut v: Vec<Op> = c.iter().map(|p| Op::Point(*p)).collect();
    v.extend([
        Op::Points(vec![]),
        Op::Points(vec![c[1]]),
        Op::Points(vec![c[2], c[4], c[3]]),
        Op::Points(vec![c[3], c[0], c[3]]),
        Op::Join(vec![]),
        Op::Join(vec![c[2]]),
        Op::Join(vec![c[1], c[2]]),
        Op::With(vec![]),
        Op::With(vec![c[4]]),
        Op::With(vec![c[1], c[4], c[2], c[3]]),
        Op::Reset,
        Op::Apply(1, (1, -2, 3)),
        Op::Apply(2, (0, 0, 0)),
    ]);
    v
}

fn boxes2(w: i64) -> Vec<B> {
    let mut v: Vec<B> = vec![None];
    for a in grid_points(w, w) {
        for b in grid_points(w, w) {
            if a.0 <= b.0 && a.1 <= b.1 {
                v.push(Some(((a.0, a.1, 0), (b.0, b.1, 0))));
            }
        }
    }
    v
}
fn boxes3(w: i64) -> Vec<B> {
    let g: Vec<P3> = (0..w * w * w)
        .map(|i| (i % w, i / w % w, i / w / w))
        .collect();
    let mut v: Vec<B> = vec![None];
    for a in &g {
        for b in &g {
            if a.0 <= b.0 && a.1 <= b.1 && a.2 <= b.2 {
                v.push(Some((*a, *b)));
            }
        }
    }
    v
}
fn real2<T: GenericVector2>(b: B, m: &Map) -> (Aabb2<T>, B) {
    match b {
        None => (Aabb2::default(), None),
        Some((l, h)) => {
            let v = m.all(&[flat(l), flat(h)]);
            let b = v.iter().fold(None, |b, p| add(b, (p.0, p.1, 0)));
            (Aabb2::with_points(&ms2::<T>(&v)), b)
        }
    }
}
/// does a contain b?
fn covers(a: B, b: B) -> bool {
    b.is_some_and(|(l, h)| inside(a, l) && inside(a, h))
}

fn c12(t: Tier) -> Vec<Box<dyn Family>> {
    let mut v: Vec<Box<dyn Family>> = Vec::new();
    let rule = "the box is not empty at the end";
    let alpha = ops();
    let n = alpha.len() as u64;
    let d = t.pick(5, 6);
    let o = alpha.clone();
    v.push(fam(
        format!("every history of up to {d} of {n} operations on a box in the plane and in space, observed after every step"),
        rule,
        seq_count(n, 1, d),
        move |i| seq_decode(i, n, 1, d).iter().map(|k| o[*k as usize].clone()).collect::<Vec<Op>>(),
        |h: &Vec<Op>, st| {
            if h.iter().fold(None, step).is_some() {
                st.nontrivial += 1;
            }
            let q = [(0, 0, 0), (3, -2, 1), (-1, 4, -3), (5, 0, 0), (1, 1, 1), (-3, 4, 0), (0, -6, 9)];
            run2::<DVec2>("DVec2", h, &q.map(flat), st);
            run3::<DVec3>("DVec3", h, &q, st);
        },
    ));
    let o = alpha;
    v.push(fam(
        "every history of up to 2 operations, for every vector type",
        rule,
        seq_count(n, 1, 2),
        move |i| {
            seq_decode(i, n, 1, 2)
                .iter()
                .map(|k| o[*k as usize].clone())
                .collect::<Vec<Op>>()
        },
        |h: &Vec<Op>, st| {
            if h.iter().fold(None, step).is_some() {
                st.nontrivial += 1;
            }
            let q = [
                (0, 0, 0),
                (3, -2, 1),
                (-1, 4, -3),
                (5, 0, 0),
                (1, 1, 1),
                (-3, 4, 0),
            ];
            for_2d!(T, n, { run2::<T>(n, h, &q.map(flat), st) });
            for_3d!(T, n, { run3::<T>(n, h, &q, st) });
        },
    ));
    let k = t.pick(4, 5);
    v.push(fam(
        format!("the box around every sequence of up to {k} points of a 4x4 grid, every point of the grid and its surroundings queried, 10 placements"),
        rule,
        seq_count(16, 0, k) * t.pick(1, 10) + 10 * seq_count(16, 0, 3),
        move |i| {
            let (i, m, hi) = if i < 10 * seq_count(16, 0, 3) {
                (i / 10, i % 10, 3)
            } else {
                let j = i - 10 * seq_count(16, 0, 3);
                match t {
                    Tier::Quick => (j, 0, k),
                    _ => (j / 10, j % 10, k),
                }
            };
            (grid_seq(i, 4, 4, 0, hi), MAPS[m as usize])
        },
        |(p, m): &(Vec<P>, Map), st| {
            let p = m.all(p);
            if !p.is_empty() {
                st.nontrivial += 1;
            }
            let q: Vec<P> = (-1..5).flat_map(|x| (-1..5).map(move |y| (x, y))).map(|p| m.on(p)).collect();
            let b = p.iter().fold(None, |b, p| add(b, (p.0, p.1, 0)));
            look2("DVec2", &Aabb2::with_points(&ms2::<DVec2>(&p)), b, &q, st);
        },
    ));
    let w = t.pick(4, 5);
    let list = std::sync::Arc::new(boxes2(w));
    let nb = list.len() as u64;
    v.push(fam(
        format!("every pair of boxes with corners on a {w}x{w} grid, or empty: containment of boxes and lines, equality, joining; 10 placements"),
        "both boxes are not empty",
        nb * nb * 10,
        move |i| (list[(i / 10 / nb) as usize], list[(i / 10 % nb) as usize], MAPS[(i % 10) as usize]),
        |(a, b, m): &(B, B, Map), st| {
            if a.is_some() && b.is_some() {
                st.nontrivial += 1;
            }
            for_2d!(T, n, {
                let (ra, ma) = real2::<T>(*a, m);
                let (rb, mb) = real2::<T>(*b, m);
                st.calls += 4;
                let got = ra.contains_aabb_inclusive(&rb);
                ensure!(st, got == covers(ma, mb), "{n}: {ma:?} contains {mb:?}: {got}");
                ensure!(st, (ra == rb) == (ma == mb), "{n}: {ma:?} equals {mb:?}: {}", ra == rb);
                if let Some((l, h)) = mb {
                    for (s, e) in [(flat(l), flat(h)), (flat(h), flat(l)), ((l.0, h.1), (h.0, l.1))] {
                        let got = ra.contains_line_inclusive(&Line2::new(m2(s), m2(e)));
                        ensure!(st, got == covers(ma, mb), "{n}: {ma:?} contains the line {s:?}-{e:?}: {got}");
                    }
                }
                let mut j = ra;
                j.update_with_aabb(rb);
                let w = match mb {
                    Some((l, h)) => add(add(ma, l), h),
                    None => ma,
                };
                look2(n, &j, w, &[], st);
            });
        },
    ));
    let list = std::sync::Arc::new(boxes3(t.pick(2, 3)));
    let nb = list.len() as u64;
    v.push(fam(
        format!("every pair of boxes in space with corners on a {0}x{0}x{0} grid, or empty: containment of boxes, lines and points, joining", t.pick(2, 3)),
        "both boxes are not empty",
        nb * nb,
        move |i| (list[(i / nb) as usize], list[(i % nb) as usize]),
        |(a, b): &(B, B), st| {
            if a.is_some() && b.is_some() {
                st.nontrivial += 1;
            }
            for_3d!(T, n, {
                let real = |b: B| match b {
                    None => Aabb3::<T>::default(),
                    Some((l, h)) => Aabb3::with_points(&ms3::<T>(&[l, h])),
                };
                let (ra, rb) = (real(*a), real(*b));
                st.calls += 4;
                let got = ra.contains_aabb_inclusive(&rb);
                ensure!(st, got == covers(*a, *b), "{n}: {a:?} contains {b:?}: {got}");
                ensure!(st, (ra == rb) == (a == b), "{n}: {a:?} equals {b:?}: {}", ra == rb);
                if let Some((l, h)) = *b {
                    for (s, e) in [(l, h), (h, l), ((l.0, h.1, l.2), (h.0, l.1, h.2)), ((l.0, l.1, h.2), (h.0, h.1, l.2))] {
                        let got = ra.contains_line_inclusive(&Line3::new(m3(s), m3(e)));
                        ensure!(st, got == covers(*a, *b), "{n}: {a:?} contains the line {s:?}-{e:?}: {got}");
                    }
                    let c = Aabb3::<T>::from([m3::<T>(l), m3::<T>(h)]);
                    ensure!(st, c == rb, "{n}: from two corners {c:?}, expected {rb:?}");
                    let s = |x: i64| len(x as f64);
                    let c = Aabb3::<T>::from([s(l.0), s(l.1), s(l.2), s(h.0), s(h.1), s(h.2)]);
                    ensure!(st, c == rb, "{n}: from six numbers {c:?}, expected {rb:?}");
                }
                let mut j = ra;
                j.update_with_aabb(rb);
                let w = match *b {
                    Some((l, h)) => add(add(*a, l), h),
                    None => *a,
                };
                let q: Vec<P3> = (0..64).map(|i| (i % 4 - 1, i / 4 % 4 - 1, i / 16 - 1)).collect();
                look3(n, &j, w, if n == "glam::DVec3" { &q } else { &[] }, st);
            });
        },
    ));
    v.push(fam(
        "the box around every sequence of up to 4 points of a 2x2x2 grid, every point of the grid and its surroundings queried",
        rule,
        seq_count(8, 0, t.pick(4, 5)),
        move |i| seq_decode(i, 8, 0, t.pick(4, 5)).iter().map(|k| ((k % 2) as i64, (k / 2 % 2) as i64, (k / 4) as i64)).collect::<Vec<P3>>(),
        |p: &Vec<P3>, st| {
            if !p.is_empty() {
                st.nontrivial += 1;
            }
            let q: Vec<P3> = (0..64).map(|i| (i % 4 - 1, i / 4 % 4 - 1, i / 16 - 1)).collect();
            let b = p.iter().fold(None, |b, p| add(b, *p));
            look3("DVec3", &Aabb3::with_points(&ms3::<DVec3>(p)), b, &q, st);
        },
    ));
    let ns: &[usize] = t.pick(&[7, 16, 32, 33, 64, 100, 255, 256, 257, 1000, 4097, 65537], &[7, 15, 16, 17, 32, 33, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 513, 1000, 1023, 1025, 4095, 4096, 4097, 65535, 65537, 200_001]);
    let mut list: Vec<(usize, usize, usize)> = Vec::new();
    for n in ns {
        for at in 0..*n {
            if *n < 130 || at < 3 || at + 3 >= *n || at & (at - 1) == 0 || at & (at + 1) == 0 || at == n / 2 || at == n / 3 {
                list.extend((0..6).map(|side| (*n, at, side)));
            }
        }
    }
    v.push(fam_list(
        "long lists of points, one of which sticks out on one of the sides, at every position (of the longest at the ends, in the middle and next to powers of two)",
        "always",
        list,
        |(n, at, side): &(usize, usize, usize), st| {
            st.nontrivial += 1;
            st.state(&(n, at, side));
            let mut p: Vec<P3> = (0..*n as i64).map(|i| (i * i % 7, i % 5, i % 3)).collect();
            let far = if side % 2 == 0 { 100 } else { -100 };
            match side / 2 {
                0 => p[*at].0 = far,
                1 => p[*at].1 = far,
                _ => p[*at].2 = far,
            }
            let b = p.iter().fold(None, |b, p| add(b, *p));
            let q = [p[*at], (1, 1, 1), (101, 0, 0), (0, -101, 0)];
            let v: Vec<DVec2> = p.iter().map(|p| m2(flat(*p))).collect();
            look2("with_points", &Aabb2::with_points(&v), b, &q.map(flat), st);
            look2("from an iterator", &Aabb2::from(v.iter()), b, &q.map(flat), st);
            let mut a = Aabb2::new(v[0]);
            a.update_with_points(&v[1..]);
            look2("update_with_points", &a, b, &q.map(flat), st);
            let w: Vec<DVec3> = ms3(&p);
            look3("with_points in space", &Aabb3::with_points(&w), b, &q, st);
            let mut a = Aabb3::default();
            for x in w.chunks(1 + *n / 3) {
                a.update_with_points(x);
            }
            look3("update_with_points in space", &a, b, &q, st);
        },
    ));
    // points that are off the box by a little; deviations of up to 4 steps may be taken for rounding
    const SIDES: [(f64, f64); 6] = [(1.0, 2.0), (-3.0, 1000.0), (0.7, 0.8), (-65537.0, -65536.0), (-1.0 / 3.0, 1e6), (12.5, 12.5)];
    const OFF: [i64; 10] = [i64::MIN, -4096, -16, -1, 0, 16, 24, 64, 4096, 1 << 20];
    v.push(fam(
        "points that are off one side of a box by 16 or more of the smallest possible steps, on it, or inside, every vector type",
        "the point is outside",
        (SIDES.len() * OFF.len() * 6) as u64,
        |i| {
            let i = i as usize;
            (SIDES[i / OFF.len() % SIDES.len()], OFF[i % OFF.len()], i / OFF.len() / SIDES.len())
        },
        |((lo, hi), off, side): &((f64, f64), i64, usize), st| {
            if *off > 0 {
                st.nontrivial += 1;
            }
            let mid = (lo + hi) / 2.0;
            // the coordinate that is off, as a number of this scalar type
            let moved = |single: bool| {
                let (v, s) = if side % 2 == 0 { (*lo, -1.0) } else { (*hi, 1.0) };
                let ulp = |v: f64| {
                    if single { f64::from(f32::from_bits((v as f32).abs().to_bits() + 1) - (v as f32).abs()) } else { f64::from_bits(v.abs().to_bits() + 1) - v.abs() }
                };
                if *off == i64::MIN {
                    return mid;
                }
                let v = if single { f64::from(v as f32) } else { v };
                let x = v + s * *off as f64 * ulp(v);
                if *off < 0 && (x < *lo || x > *hi) { mid } else { x }
            };
            let ax = side / 2;
            macro_rules! at {
                ($x:expr) => {{
                    let mut c = [mid; 3];
                    c[ax] = $x;
                    c
                }};
            }
            for_2d!(T, n, {
                if ax < 2 {
                    let a = Aabb2::<T>::with_points(&[v2(*lo, *lo), v2(*hi, *hi)]);
                    let c = at!(moved(std::mem::size_of::<<T as HasXY>::Scalar>() == 4));
                    let p: T = v2(c[0], c[1]);
                    st.calls += 3;
                    let m: T = v2(mid, mid);
                    let got = [a.contains_point_inclusive(p), a.contains_line_inclusive(&Line2::new(m, p)), a.contains_line_inclusive(&Line2::new(p, m)), a.contains_aabb_inclusive(&Aabb2::with_points(&[p, m]))];
                    ensure!(st, got == [*off <= 0; 4], "{n}: point, line, line and box to {p:?} inside of {a:?}: {got:?}");
                }
            });
            for_3d!(T, n, {
                let a = Aabb3::<T>::with_points(&[v3(*lo, *lo, *lo), v3(*hi, *hi, *hi)]);
                let c = at!(moved(std::mem::size_of::<<T as HasXY>::Scalar>() == 4));
                let p: T = v3(c[0], c[1], c[2]);
                st.calls += 3;
                let m: T = v3(mid, mid, mid);
                let got = [a.contains_point_inclusive(p), a.contains_line_inclusive(&Line3::new(m, p)), a.contains_line_inclusive(&Line3::new(p, m)), a.contains_aabb_inclusive(&Aabb3::with_points(&[p, m]))];
                ensure!(st, got == [*off <= 0; 4], "{n}: point, line, line and box to {p:?} inside of the box from {lo} to {hi}: {got:?}");
            });
        },
    ));
    v
}

// ------------------------------------------------------------------ C13

/// the exact transform: scale as a fraction, doubled centers
struct Model {
    num: i64,
    den: i64,
    ca: P,
    cb: P,
}
fn model(a: (P, P), b: (P, P)) -> Model {
    let size = |b: (P, P)| ((b.1 .0 - b.0 .0).max(1), (b.1 .1 - b.0 .1).max(1));
    let (sa, sb) = (size(a), size(b));
    Model {
        num: sb.0.min(sb.1),
        den: sa.0.max(sa.1),
        ca: (a.0 .0 + a.1 .0, a.0 .1 + a.1 .1),
        cb: (b.0 .0 + b.1 .0, b.0 .1 + b.1 .1),
    }
}
impl Model {
    fn ab(&self, p: P) -> (f64, f64) {
        let k = |p: i64, a: i64, b: i64| {
            ((2 * p - a) * self.num + b * self.den) as f64 / (2 * self.den) as f64
        };
        (k(p.0, self.ca.0, self.cb.0), k(p.1, self.ca.1, self.cb.1))
    }
    fn ba(&self, p: P) -> (f64, f64) {
        let k = |p: i64, a: i64, b: i64| {
            ((2 * p - b) * self.den + a * self.num) as f64 / (2 * self.num) as f64
        };
        (k(p.0, self.ca.0, self.cb.0), k(p.1, self.ca.1, self.cb.1))
    }
}

fn affine<T: GenericVector2>(n: &str, a: (P, P), b: (P, P), query: &[P], st: &mut Local) {
    let m = model(a, b);
    let bx = |c: (P, P)| Aabb2::<T>::with_points(&ms2::<T>(&[c.0, c.1]));
    let s = match SimpleAffine::new(&bx(a), &bx(b)) {
        Ok(s) => s,
        Err(e) => {
            st.fail(format!("{n}: no transform from {a:?} to {b:?}: {e:?}"));
            return;
        }
    };
    let big = max_abs(&[a.0, a.1, b.0, b.1]).max(max_abs(query));
    let tol = tol::<T::Scalar>(big * big);
    let near = |g: (f64, f64), w: (f64, f64), z: f64| {
        (g.0 - w.0).abs() <= tol * z && (g.1 - w.1).abs() <= tol * z
    };
    let (up, down) = (
        (m.num as f64 / m.den as f64).max(1.0),
        (m.den as f64 / m.num as f64).max(1.0),
    );
    for q in query {
        st.calls += 4;
        let p: T = m2(*q);
        match (s.transform_ab(p), s.transform_ba(p)) {
            (Ok(x), Ok(y)) => {
                ensure!(
                    st,
                    near(un2(x), m.ab(*q), up),
                    "{n}: {a:?} -> {b:?} takes {q:?} to {:?}, expected {:?}",
                    un2(x),
                    m.ab(*q)
                );
                ensure!(
                    st,
                    near(un2(y), m.ba(*q), down),
                    "{n}: {b:?} -> {a:?} takes {q:?} to {:?}, expected {:?}",
                    un2(y),
                    m.ba(*q)
                );
                for (back, what) in [
                    (s.transform_ba(x), "there and back"),
                    (s.transform_ab(y), "back and there"),
                ] {
                    match back {
                        Ok(r) => ensure!(
                            st,
                            near(un2(r), un2(p), up * down),
                            "{n}: {q:?} {what} with {a:?}, {b:?} is {:?}",
                            un2(r)
                        ),
                        Err(e) => st.fail(format!("{n}: {what}: {e:?}")),
                    }
                }
                // the version for two points at once
                let o: T = m2(query[0]);
                let arr = [o.x(), o.y(), p.x(), p.y()];
                for (g, x) in [(s.transform_ab_a(arr), x), (s.transform_ba_a(arr), y)] {
                    match g {
                        Ok(g) => ensure!(
                            st,
                            g[2] == x.x() && g[3] == x.y(),
                            "{n}: array version {g:?}, point version {:?}",
                            un2(x)
                        ),
                        Err(e) => st.fail(format!("{n}: array version of {q:?}: {e:?}")),
                    }
                }
                let arr = [p.x(), p.y(), o.x(), o.y()];
                for (g, x) in [(s.transform_ab_a(arr), x), (s.transform_ba_a(arr), y)] {
                    match g {
                        Ok(g) => ensure!(
                            st,
                            g[0] == x.x() && g[1] == x.y(),
                            "{n}: array version {g:?}, point version {:?}",
                            un2(x)
                        ),
                        Err(e) => st.fail(format!("{n}: array version of {q:?}: {e:?}")),
                    }
                }
            }
            (x, y) => st.fail(format!("{n}: {a:?} <-> {b:?} of {q:?}: {x:?} {y:?}")),
        }
        if st.failed() {
            return;
        }
    }
    // the source box stays inside of a destination that is at least one unit wide and high
    if b.1 .0 > b.0 .0 && b.1 .1 > b.0 .1 {
        for q in [a.0, a.1] {
            let (x, y) = s.transform_ab(m2(q)).map(un2).unwrap_or((f64::NAN, 0.0));
            let t = tol * up;
            let ok = x >= b.0 .0 as f64 - t
                && x <= b.1 .0 as f64 + t
                && y >= b.0 .1 as f64 - t
                && y <= b.1 .1 as f64 + t;
            ensure!(
                st,
                ok,
                "{n}: the corner {q:?} of {a:?} lands at ({x}, {y}), outside of {b:?}"
            );
        }
    }
    st.state(&(m.num, m.den, m.ca, m.cb));
}

/// boxes of any size: every point is scaled around the center of the source box and moved to that of the target
fn measured<T: GenericVector2>(n: &str, a: &[f64; 4], b: &[f64; 4], st: &mut Local) {
    // the corners as this scalar type has them
    let q = |c: &[f64; 4]| c.map(|x| f(sc::<T::Scalar>(x)));
    let (a, b) = (q(a), q(b));
    let bx = |c: &[f64; 4]| Aabb2::<T>::with_points(&[v2(c[0], c[1]), v2(c[2], c[3])]);
    let Ok(s) = SimpleAffine::new(&bx(&a), &bx(&b)) else {
        st.fail(format!("{n}: no transform from {a:?} to {b:?}"));
        return;
    };
    let side = |c: &[f64; 4]| ((c[2] - c[0]).max(1.0), (c[3] - c[1]).max(1.0));
    let (sa, sb) = (side(&a), side(&b));
    let k = sb.0.min(sb.1) / sa.0.max(sa.1);
    let mid = |c: &[f64; 4]| ((c[0] + c[2]) / 2.0, (c[1] + c[3]) / 2.0);
    let (ca, cb) = (mid(&a), mid(&b));
    let eps = tol::<T::Scalar>(1);
    let far = |c: &[f64; 4]| c.iter().fold(1f64, |m, x| m.max(x.abs()));
    for p in [(a[0], a[1]), (a[2], a[3]), (a[0], a[3]), ca, (ca.0 + 1.0, ca.1 - 2.0), (b[0], b[1]), (b[2], b[1]), cb, (-7.0, 900.0)] {
        let p = (f(sc::<T::Scalar>(p.0)), f(sc::<T::Scalar>(p.1)));
        let big = p.0.abs().max(p.1.abs());
        let t: T = v2(p.0, p.1);
        st.calls += 4;
        let (Ok(x), Ok(y)) = (s.transform_ab(t), s.transform_ba(t)) else {
            st.fail(format!("{n}: {a:?} -> {b:?} of {p:?}: an error"));
            return;
        };
        let (tab, tba) = (eps * ((big + far(&a)) * k + far(&b)), eps * ((big + far(&b)) / k + far(&a)));
        let near = |g: (f64, f64), w: (f64, f64), t: f64| (g.0 - w.0).abs() <= t && (g.1 - w.1).abs() <= t;
        let w = ((p.0 - ca.0) * k + cb.0, (p.1 - ca.1) * k + cb.1);
        ensure!(st, near(un2(x), w, tab), "{n}: {a:?} -> {b:?} takes {p:?} to {:?}, expected {w:?}", un2(x));
        let w = ((p.0 - cb.0) / k + ca.0, (p.1 - cb.1) / k + ca.1);
        ensure!(st, near(un2(y), w, tba), "{n}: {b:?} -> {a:?} takes {p:?} to {:?}, expected {w:?}", un2(y));
        let arr = [p.0, p.1, a[2], b[1]].map(sc::<T::Scalar>);
        match (s.transform_ab_a(arr), s.transform_ba_a(arr)) {
            (Ok(g), Ok(h)) => {
                ensure!(st, g[0] == x.x() && g[1] == x.y() && h[0] == y.x() && h[1] == y.y(), "{n}: array versions {g:?} {h:?}, point versions {x:?} {y:?}");
            }
            r => st.fail(format!("{n}: array versions of {p:?} {r:?}")),
        }
        match s.transform_ba(x) {
            Ok(r) => ensure!(st, near(un2(r), p, tab / k + tba + eps * big), "{n}: {p:?} there and back with {a:?}, {b:?} is {:?}", un2(r)),
            Err(e) => st.fail(format!("{n}: back: {e:?}")),
        }
    }
    st.state(&(k.to_bits(), ca.0.to_bits(), cb.0.to_bits()));
}

fn is_err<X>(r: Result<X, LinestringError>) -> bool {
    r.is_err()
}
/// calculations that leave the range of the numbers, empty boxes, the default transform
fn limits<T: GenericVector2>(n: &str, big: f64, st: &mut Local) {
    let empty = Aabb2::<T>::default();
    let unit = Aabb2::<T>::with_points(&[v2(0.0, 0.0), v2(2.0, 2.0)]);
    st.calls += 3;
    ensure!(
        st,
        matches!(
            SimpleAffine::new(&empty, &unit),
            Err(LinestringError::AabbError(_))
        ),
        "{n}: transform from an empty box"
    );
    ensure!(
        st,
        matches!(
            SimpleAffine::new(&unit, &empty),
            Err(LinestringError::AabbError(_))
        ),
        "{n}: transform to an empty box"
    );
    ensure!(
        st,
        matches!(
            SimpleAffine::new(&empty, &empty),
            Err(LinestringError::AabbError(_))
        ),
        "{n}: transform between empty boxes"
    );
    let d = SimpleAffine::<T>::default();
    for q in [(0.0, 0.0), (1.5, -7.25), (1e9, -1e-9)] {
        let p: T = v2(q.0, q.1);
        st.calls += 4;
        ensure!(
            st,
            d.transform_ab(p).ok() == Some(p) && d.transform_ba(p).ok() == Some(p),
            "{n}: the default transform moves {q:?}"
        );
        let arr = [p.x(), p.y(), p.y(), p.x()];
        ensure!(
            st,
            d.transform_ab_a(arr).ok() == Some(arr) && d.transform_ba_a(arr).ok() == Some(arr),
            "{n}: the default transform moves {q:?} in an array"
        );
    }
    // magnified and reduced by 1000
    let wide = Aabb2::<T>::with_points(&[v2(-1000.0, -1000.0), v2(1000.0, 1000.0)]);
    for (a, b, away) in [(&unit, &wide, true), (&wide, &unit, false)] {
        if let Ok(s) = SimpleAffine::new(a, b) {
            for x in [big, -big, f64::NAN, f64::INFINITY, f64::NEG_INFINITY] {
                for pos in 0..4usize {
                    let mut c = [1.0, 2.0, 3.0, 4.0];
                    c[pos] = x;
                    let arr = c.map(sc::<T::Scalar>);
                    let p: T = T::new_2d(arr[pos / 2 * 2], arr[pos / 2 * 2 + 1]);
                    // finite values overflow only where they are magnified
                    let (ab, ba) = if x.abs() == big {
                        (away, !away)
                    } else {
                        (true, true)
                    };
                    st.calls += 4;
                    ensure!(
                        st,
                        is_err(s.transform_ab(p)) == ab,
                        "{n}: transform_ab {c:?}: {:?}",
                        s.transform_ab(p)
                    );
                    ensure!(
                        st,
                        is_err(s.transform_ba(p)) == ba,
                        "{n}: transform_ba {c:?}: {:?}",
                        s.transform_ba(p)
                    );
                    ensure!(
                        st,
                        is_err(s.transform_ab_a(arr)) == ab,
                        "{n}: transform_ab_a {c:?}: {:?}",
                        s.transform_ab_a(arr)
                    );
                    ensure!(
                        st,
                        is_err(s.transform_ba_a(arr)) == ba,
                        "{n}: transform_ba_a {c:?}: {:?}",
                        s.transform_ba_a(arr)
                    );
                }
            }
        } else {
            st.fail(format!("{n}: no transform"));
        }
    }
}

/// A transform made from its parts: the parts apply to their own axis, forth and back, and the list
/// versions agree with the single versions.
fn parts<T: GenericVector2>(n: &str, m: [i64; 6], p: P, q: P, st: &mut Local) {
    let k = |v: i64| sc::<T::Scalar>(v as f64);
    let s = SimpleAffine::<T> { a_offset: [k(m[0]), k(m[1])], scale: [k(m[2]), k(m[3])], b_offset: [k(m[4]), k(m[5])] };
    let ab = |p: P| [((p.0 + m[0]) * m[2] + m[4]) as f64, ((p.1 + m[1]) * m[3] + m[5]) as f64];
    let ba = |p: P| {
        [(p.0 - m[4]) as f64 / m[2] as f64 - m[0] as f64, (p.1 - m[5]) as f64 / m[3] as f64 - m[1] as f64]
    };
    let tol = tol::<T::Scalar>(100);
    let near = |g: &[f64], w: &[f64]| g.iter().zip(w).all(|(g, w)| (g - w).abs() <= tol);
    let arr = [k(p.0), k(p.1), k(q.0), k(q.1)];
    let (tp, tq): (T, T) = (m2(p), m2(q));
    st.calls += 6;
    match (s.transform_ab(tp), s.transform_ab(tq), s.transform_ab_a(arr)) {
        (Ok(x), Ok(y), Ok(l)) => {
            let l = l.map(f);
            let ((x0, x1), (y0, y1)) = (un2(x), un2(y));
            ensure!(st, near(&[x0, x1], &ab(p)) && near(&[y0, y1], &ab(q)), "{n}: forth {p:?} {q:?} with {m:?}: {x:?} {y:?}");
            ensure!(st, near(&l, &[x0, x1, y0, y1]), "{n}: list version forth {p:?} {q:?} with {m:?}: {l:?}");
        }
        r => st.fail(format!("{n}: forth {p:?} {q:?} with {m:?}: {r:?}")),
    }
    match (s.transform_ba(tp), s.transform_ba(tq), s.transform_ba_a(arr)) {
        (Ok(x), Ok(y), Ok(l)) => {
            let l = l.map(f);
            let ((x0, x1), (y0, y1)) = (un2(x), un2(y));
            ensure!(st, near(&[x0, x1], &ba(p)) && near(&[y0, y1], &ba(q)), "{n}: back {p:?} {q:?} with {m:?}: {x:?} {y:?}");
            ensure!(st, near(&l, &[x0, x1, y0, y1]), "{n}: list version back {p:?} {q:?} with {m:?}: {l:?}");
        }
        r => st.fail(format!("{n}: back {p:?} {q:?} with {m:?}: {r:?}")),
    }
}

fn c13(t: Tier) -> Vec<Box<dyn Family>> {
    let mut v: Vec<Box<dyn Family>> = Vec::new();
    let rule = "the two boxes differ";
    let w = t.pick(4, 5);
    let list: std::sync::Arc<Vec<(P, P)>> = std::sync::Arc::new(
        boxes2(w)
            .into_iter()
            .flatten()
            .map(|b| (flat(b.0), flat(b.1)))
            .collect(),
    );
    let nb = list.len() as u64;
    let l2 = list.clone();
    v.push(fam(
        format!("every pair of boxes with corners on a {w}x{w} grid, the target in 10 placements, points in and around both boxes"),
        rule,
        nb * nb * 10,
        move |i| {
            let m = &MAPS[(i % 10) as usize];
            let b = l2[(i / 10 % nb) as usize];
            let b = real2::<DVec2>(Some(((b.0 .0, b.0 .1, 0), (b.1 .0, b.1 .1, 0))), m).1.unwrap();
            (l2[(i / 10 / nb) as usize], (flat(b.0), flat(b.1)))
        },
        move |(a, b): &((P, P), (P, P)), st| {
            if a != b {
                st.nontrivial += 1;
            }
            let q = [a.0, a.1, b.0, b.1, (a.0 .0, a.1 .1), (0, 0), (-3, 7)];
            affine::<DVec2>("DVec2", *a, *b, &q, st);
            affine::<DVec2>("DVec2", *b, *a, &q, st);
        },
    ));
    let nb3: Vec<(P, P)> = boxes2(3)
        .into_iter()
        .flatten()
        .map(|b| (flat(b.0), flat(b.1)))
        .collect();
    let n3 = nb3.len() as u64;
    v.push(fam(
        "every pair of boxes with corners on a 3x3 grid, every vector type",
        rule,
        n3 * n3,
        move |i| (nb3[(i / n3) as usize], nb3[(i % n3) as usize]),
        |(a, b): &((P, P), (P, P)), st| {
            if a != b {
                st.nontrivial += 1;
            }
            for_2d!(T, n, {
                affine::<T>(n, *a, *b, &[a.0, a.1, b.1, (5, -2)], st)
            });
        },
    ));
    // transforms whose fields are set directly: every axis has its own offset and scale
    let vals: [(i64, i64); 4] = [(0, 1), (3, 2), (-5, 4), (7, 8)];
    v.push(fam(
        "transforms made from their parts: 4 offsets and scales per axis, all combinations, and all point pairs of 3x3",
        "the axes differ",
        4u64.pow(4) * 81,
        move |i| {
            let d = |k: u32| vals[(i / 81 / 4u64.pow(k) % 4) as usize];
            let (a, b) = (d(0), d(1));
            let (c, e) = (d(2), d(3));
            // a offsets, scales (powers of two, so that everything is exact), b offsets
            ([a.0, b.0, a.1, b.1, c.0, e.0], (grid(i % 9, 3), grid(i / 9 % 9, 3)))
        },
        |(m, (p, q)): &([i64; 6], (P, P)), st| {
            if m[2] != m[3] {
                st.nontrivial += 1;
            }
            st.state(m);
            for_2d!(T, n, { parts::<T>(n, *m, *p, *q, st) });
        },
    ));
    const LEN: [f64; 9] = [0.0, 1.0 / 4096.0, 0.5, 1.0 - 1.0 / 4096.0, 1.0, 1.0 + 1.0 / 4096.0, 3.25, 1000.0, 1048576.0];
    const AT: [(f64, f64); 3] = [(0.0, 0.0), (-0.375, 7.25), (5000.5, -3000.125)];
    let one = |i: u64| {
        let (w, h, p) = (LEN[(i % 9) as usize], LEN[(i / 9 % 9) as usize], AT[(i / 81) as usize]);
        [p.0, p.1, p.0 + w, p.1 + h]
    };
    v.push(fam(
        "every pair of boxes with sides from {0, 2^-12, 1/2, 1-2^-12, 1, 1+2^-12, 3.25, 1000, 2^20} at 3 places, every vector type",
        rule,
        243 * 243,
        move |i| (one(i % 243), one(i / 243)),
        |(a, b): &([f64; 4], [f64; 4]), st| {
            if a != b {
                st.nontrivial += 1;
            }
            for_2d!(T, n, { measured::<T>(n, a, b, st) });
        },
    ));
    v.push(fam_list(
        "empty boxes, the default transform and results out of the range of the numbers",
        "always",
        vec![0],
        |_, st| {
            st.nontrivial += 1;
            limits::<DVec2>("DVec2", f64::MAX, st);
            limits::<vector_traits::cgmath::Vector2<f64>>("cgmath f64", f64::MAX, st);
            limits::<vector_traits::glam::Vec2>("Vec2", f32::MAX as f64, st);
            limits::<vector_traits::Vec2A>("Vec2A", f32::MAX as f64, st);
            limits::<vector_traits::cgmath::Vector2<f32>>("cgmath f32", f32::MAX as f64, st);
        },
    ));
    v
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C12",
            families: |t| with_digits(with_zeros(with_scales(c12, t, &["the box around every sequence"], &[(-44, -16), (-25, -11), (-12, -6), (20, 8), (200, 18), (1000, 105)]), c12, &["the box around every sequence", "every pair of boxes"]), c12, &["the box around every sequence", "every pair of boxes"]),
            bounds: "all histories of up to 5 (thorough 6) of 18 operations in the plane and in space, up to 2 for every vector type; all sequences of up to 4 (5) points of a 4x4 grid and a 2x2x2 grid; all pairs of boxes of a 4x4 (5x5) and a 2x2x2 (3x3x3) grid, 10 placements, every vector type; one point that sticks out at every position of lists of up to 65537 (200001) points; points 16 or more steps of the scalar type off a side",
            assumptions: &["apply is given functions that keep the order of the coordinates", "points that are off the outline by a few ulps may count as inside"],
        },
        Prop {
            id: "C13",
            families: |t| with_zeros(c13(t), c13, &["on a 3x3 grid"]),
            bounds: "all pairs of boxes with corners on a 4x4 (thorough 5x5) grid in both directions, the second in 10 placements; 3x3 for every vector type; sides from 0 to 2^20, just below and above one; overflow, NaN and infinity in every position",
            assumptions: &["results are compared with the exact ones within a tolerance of the scalar type"],
        },
    ]
}
