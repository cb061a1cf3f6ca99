//! C14 planes, C19 points and lines of a line string, C23 approximate comparison.
use crate::ensure;
use crate::for_2d;
use crate::for_3d;
use crate::fw::*;
use crate::geo::*;
use linestring::linestring_2d::{Approx as Approx2, Line2};
use linestring::linestring_3d::{Aabb3, Approx as Approx3, Line3, Plane};
use linestring::prelude::{LineString2, LineString3};
use vector_traits::approx::{AbsDiffEq, UlpsEq};
use vector_traits::glam::{DVec2, DVec3};
use vector_traits::{GenericVector2, GenericVector3, HasXY, HasXYZ};

// ------------------------------------------------------------------ C14

const PLANES: [Plane; 3] = [Plane::XY, Plane::XZ, Plane::YZ];

/// the plane of a box with these sides (in units of 1e-9 of the longest, or whole numbers)
fn plane_of(flat: [bool; 3]) -> Option<Plane> {
    match flat {
        [true, false, false] => Some(Plane::YZ),
        [false, true, false] => Some(Plane::XZ),
        [false, false, true] => Some(Plane::XY),
        _ => None,
    }
}
fn drop_axis(pl: Plane, p: P3) -> P {
    match pl {
        Plane::XY => (p.0, p.1),
        Plane::XZ => (p.0, p.2),
        Plane::YZ => (p.1, p.2),
    }
}
fn in_plane(pl: Plane, p: P) -> P3 {
    match pl {
        Plane::XY => (p.0, p.1, 0),
        Plane::XZ => (p.0, 0, p.1),
        Plane::YZ => (0, p.0, p.1),
    }
}
/// the same for whole line strings, where every axis keeps its place if possible: y stays y
fn drop_axis_ls(pl: Plane, p: P3) -> P {
    match pl {
        Plane::YZ => (p.2, p.1),
        _ => drop_axis(pl, p),
    }
}
fn in_plane_ls(pl: Plane, p: P) -> P3 {
    match pl {
        Plane::YZ => (0, p.1, p.0),
        _ => in_plane(pl, p),
    }
}

fn copies<T3: GenericVector3>(n: &str, p: &[P3], st: &mut Local)
where
    T3::Vector2: GenericVector2<Vector3 = T3>,
    T3::Vector2: vector_traits::HasXY<Scalar = T3::Scalar>,
{
    let q: Vec<P> = p.iter().map(|p| (p.0, p.1)).collect();
    let v3: Vec<T3> = ms3(p);
    let v2: Vec<T3::Vector2> = ms2(&q);
    for pl in PLANES {
        st.calls += 4;
        for (i, x) in p.iter().enumerate() {
            let a = int2(pl.point_to_2d::<T3>(v3[i]));
            ensure!(
                st,
                a == Some(drop_axis(pl, *x)),
                "{n} {pl:?}: point_to_2d {x:?} = {a:?}"
            );
            let b = int3(pl.point_to_3d::<T3>(v2[i]));
            ensure!(
                st,
                b == Some(in_plane(pl, q[i])),
                "{n} {pl:?}: point_to_3d {:?} = {b:?}",
                q[i]
            );
            let c = int2(pl.point_to_2d::<T3>(pl.point_to_3d::<T3>(v2[i])));
            ensure!(
                st,
                c == Some(q[i]),
                "{n} {pl:?}: there and back {:?} = {c:?}",
                q[i]
            );
        }
        let a = ints2(&v3.copy_to_2d(pl));
        let w: Vec<P> = p.iter().map(|p| drop_axis_ls(pl, *p)).collect();
        ensure!(
            st,
            a.as_ref() == Some(&w),
            "{n} {pl:?}: copy_to_2d {a:?}, expected {w:?}"
        );
        let l3: Vec<T3> = v2.copy_to_3d(pl);
        let a: Option<Vec<P3>> = l3.iter().map(|p| int3(*p)).collect();
        let w: Vec<P3> = q.iter().map(|p| in_plane_ls(pl, *p)).collect();
        ensure!(
            st,
            a.as_ref() == Some(&w),
            "{n} {pl:?}: copy_to_3d {a:?}, expected {w:?}"
        );
        let back = ints2(&l3.copy_to_2d(pl));
        ensure!(
            st,
            back.as_ref() == Some(&q),
            "{n} {pl:?}: there and back {back:?}, expected {q:?}"
        );
        for i in 0..p.len().saturating_sub(1) {
            st.calls += 2;
            let l = Line3::new(v3[i], v3[i + 1]).copy_to_2d(pl);
            let g = (int2(l.start), int2(l.end));
            ensure!(
                st,
                g == (Some(drop_axis(pl, p[i])), Some(drop_axis(pl, p[i + 1]))),
                "{n} {pl:?}: line copied to {g:?}"
            );
            let l = Line2::new(v2[i], v2[i + 1]).copy_to_3d(pl);
            let g = (int3(l.start), int3(l.end));
            ensure!(
                st,
                g == (Some(in_plane(pl, q[i])), Some(in_plane(pl, q[i + 1]))),
                "{n} {pl:?}: line copied to {g:?}"
            );
            let m = l.copy_to_2d(pl);
            let g = (int2(m.start), int2(m.end));
            ensure!(
                st,
                g == (Some(q[i]), Some(q[i + 1])),
                "{n} {pl:?}: line there and back {g:?}"
            );
        }
    }
}

fn c14(t: Tier) -> Vec<Box<dyn Family>> {
    let mut v: Vec<Box<dyn Family>> = Vec::new();
    // sides of the box: exactly flat, flat up to the leavings of a modelling tool, tiny but visible, wide
    let sides = [0.0, 1e-18, 1e-3, 0.25, 1.0, 7.0, 5000.0];
    v.push(fam(
        "every box in space with sides from {0, 1e-18, 0.001, 0.25, 1, 7, 5000}, at 5 places and magnified or reduced by 1e15, for every vector type",
        "the box lies in exactly one plane",
        7 * 7 * 7 * 7,
        move |i| ([sides[(i % 7) as usize], sides[(i / 7 % 7) as usize], sides[(i / 49 % 7) as usize]], i / 343),
        |(s, at): &([f64; 3], u64), st| {
            for_3d!(T, n, {
                let low: [f64; 3] = match at {
                    0 => [0.0, 0.0, 0.0],
                    1 => [-1.0, 2.0, 0.5],
                    2 => [-8.0, -8.0, -8.0],
                    3 => [0.0, 0.0, -64.0],
                    _ => [1024.0, -1024.0, 0.0],
                };
                let k = [1.0, 1e-15, 1e15][(*at as usize).saturating_sub(4)];
                let (low, s) = if k == 1.0 { (low, *s) } else { ([0.0; 3], s.map(|s| s * k)) };
                let hi = [low[0] + s[0], low[1] + s[1], low[2] + s[2]];
                let (a, b): (T, T) = (v3(low[0], low[1], low[2]), v3(hi[0], hi[1], hi[2]));
                // the sides as they are after rounding to the scalar type
                let (fa, fb) = (un3(a), un3(b));
                let d = [fb.0 - fa.0, fb.1 - fa.1, fb.2 - fa.2];
                let max = d[0].max(d[1]).max(d[2]);
                let want = if max == 0.0 {
                    None
                } else {
                    plane_of(d.map(|d| d / max < 1e-8))
                };
                st.calls += 5;
                // not decided: sides at the limit of what counts as flat
                if d.iter().all(|d| *d == 0.0 || d / max < 1e-17 || d / max > 1.9e-7) {
                    let bx = Aabb3::with_points(&[a, b]);
                    let got = Plane::get_plane(bx);
                    ensure!(st, got == want, "{n}: sides {d:?}: {got:?}, expected {want:?}");
                    let bx2 = Aabb3::with_points(&[b, a, a]);
                    ensure!(st, Plane::get_plane(bx2) == want, "{n}: sides {d:?}: depends on the order of the points");
                    if want.is_some() {
                        st.nontrivial += 1;
                    }
                }
                // with a wide tolerance everything below 1% counts as flat
                let want = if max == 0.0 {
                    None
                } else {
                    plane_of(d.map(|d| d / max < 0.01))
                };
                if d.iter().all(|d| !(0.009..0.011).contains(&(d / max))) {
                    let bx = Aabb3::with_points(&[a, b]);
                    let got = Plane::get_plane_relaxed(bx, sc(0.01), 4);
                    ensure!(st, got == want, "{n}: sides {d:?} with tolerance 0.01: {got:?}, expected {want:?}");
                }
                st.state(&d.map(|d| (d / max < 1e-8, d / max < 0.01)));
                ensure!(st, Plane::get_plane(Aabb3::<T>::default()).is_none(), "{n}: an empty box has a plane");
                ensure!(st, Plane::get_plane_relaxed(Aabb3::<T>::default(), sc(0.5), 4).is_none(), "{n}: an empty box has a plane");
            });
        },
    ));
    let k = t.pick(3, 4);
    v.push(fam(
        format!("every line string of up to {k} points of a 3x3x3 grid, copied to and from every plane, for every vector type"),
        "at least two points",
        seq_count(27, 0, k),
        move |i| seq_decode(i, 27, 0, k).iter().map(|s| ((s % 3) as i64 - 1, (s / 3 % 3) as i64 * 5 + 2, (s / 9) as i64 * 3 - 7)).collect::<Vec<P3>>(),
        |p: &Vec<P3>, st| {
            if p.len() > 1 {
                st.nontrivial += 1;
            }
            for_3d!(T, n, { copies::<T>(n, p, st) });
            st.state(p);
        },
    ));
    v.push(fam(
        "every plane figure of up to 3 points of a 3x3 grid in every plane: the plane is recognised and the figure comes back",
        "the figure is wide and high",
        seq_count(9, 2, 4) * 3,
        |i| (grid_seq(i / 3, 3, 3, 2, 4), PLANES[(i % 3) as usize]),
        |(p, pl): &(Vec<P>, Plane), st| {
            let q: Vec<DVec2> = ms2(p);
            let w = |f: fn(&P) -> i64| p.iter().map(f).max() != p.iter().map(f).min();
            let v: Vec<DVec3> = q.iter().map(|q| pl.point_to_3d::<DVec3>(*q)).collect();
            let l: Vec<DVec3> = q.copy_to_3d(*pl);
            let wide = w(|p| p.0) && w(|p| p.1);
            st.calls += 2;
            for v in [&v, &l] {
                let got = Plane::get_plane(Aabb3::with_points(v));
                if wide {
                    st.nontrivial += 1;
                    ensure!(st, got == Some(*pl), "{p:?} in {pl:?} is recognised as {got:?}");
                } else {
                    ensure!(st, got.is_none(), "{p:?} in {pl:?}, which is only a line or point, is recognised as {got:?}");
                }
            }
        },
    ));
    v.push(fam_list(
        "long line strings in every plane, one point of them in front of it or behind it or none, copied to and from every plane",
        "at least two points",
        [7usize, 33, 100, 255, 256, 257, 1000, 4097, 65536, 65537, 70_000]
            .into_iter()
            .flat_map(|n| (0..18usize).map(move |k| (n, k)))
            .collect::<Vec<(usize, usize)>>(),
        |(n, k): &(usize, usize), st| {
            st.nontrivial += 1;
            let (pl, at) = (PLANES[k % 3], [usize::MAX, 0, n / 2, n - 2, n - 1, n * 9 / 10][k / 3]);
            let p: Vec<P3> = (0..*n as i64)
                .map(|i| {
                    let (a, b, c) = (i % 1009 - 300, i * i % 997 - 600, if i as usize == at { 3 - 6 * (i % 2) } else { 0 });
                    match pl {
                        Plane::XY => (a, b, c),
                        Plane::XZ => (a, c, b),
                        Plane::YZ => (c, a, b),
                    }
                })
                .collect();
            copies::<DVec3>("DVec3", &p, st);
            copies::<vector_traits::glam::Vec3>("Vec3", &p, st);
            let v: Vec<DVec3> = ms3(&p);
            let got = Plane::get_plane(Aabb3::with_points(&v));
            let want = (at == usize::MAX).then_some(pl);
            st.calls += 1;
            ensure!(st, got == want, "{n} points in {pl:?}, but for number {at}: {got:?}");
        },
    ));
    v
}

// ------------------------------------------------------------------ C19

fn windows(p: &[P3]) -> Vec<(P3, P3)> {
    p.windows(2).map(|w| (w[0], w[1])).collect()
}
fn chunks(p: &[P3]) -> Vec<(P3, P3)> {
    p.chunks_exact(2).map(|w| (w[0], w[1])).collect()
}
fn lift(p: &[P]) -> Vec<P3> {
    p.iter().map(|p| (p.0, p.1, 0)).collect()
}

fn book2<T: GenericVector2>(n: &str, p: &[P], st: &mut Local) {
    let v: Vec<T> = ms2(p);
    let i = |l: Line2<T>| {
        let (a, b) = (int2(l.start).unwrap(), int2(l.end).unwrap());
        ((a.0, a.1, 0), (b.0, b.1, 0))
    };
    let p3 = lift(p);
    let connected = p.first() == p.last();
    st.calls += 6;
    ensure!(
        st,
        v.is_connected() == connected,
        "{n}: is_connected {}",
        v.is_connected()
    );
    let want = p.len() - usize::from(p.len() > 2 && connected);
    ensure!(
        st,
        v.point_count() == want,
        "{n}: point_count {}, expected {want}",
        v.point_count()
    );
    let w: Vec<_> = v.window_iter().map(i).collect();
    ensure!(st, w == windows(&p3), "{n}: window_iter {w:?}");
    let c: Vec<_> = v.chunk_iter().map(i).collect();
    ensure!(st, c == chunks(&p3), "{n}: chunk_iter {c:?}");
    // the number of lines that are still to come, at every position
    let (mut a, mut b) = (v.window_iter(), v.chunk_iter());
    let odd: Vec<P> = b.remainder().iter().map(|p| int2(*p).unwrap()).collect();
    ensure!(
        st,
        odd == p.chunks_exact(2).remainder(),
        "{n}: remainder {odd:?}"
    );
    for left in (0..=w.len()).rev() {
        ensure!(
            st,
            a.len() == left
                && ExactSizeIterator::len(&a) == left
                && a.size_hint() == (left, Some(left))
                && a.is_empty() == (left == 0),
            "{n}: window_iter says {} or {:?} are left of {left}",
            a.len(),
            a.size_hint()
        );
        let _ = a.next();
    }
    for left in (0..=c.len()).rev() {
        ensure!(
            st,
            b.len() == left && b.is_empty() == (left == 0),
            "{n}: chunk_iter says {} are left of {left}",
            b.len()
        );
        let _ = b.next();
    }
    ensure!(
        st,
        a.next().is_none() && b.next().is_none() && a.is_empty() && b.is_empty(),
        "{n}: lines after the end"
    );
    let mut m = v.clone();
    LineString2::apply(&mut m, &|q: T| T::new_2d(q.y() * sc(2.0), q.x() + len(10.0)));
    let m = ints2(&m);
    let want: Vec<P> = p.iter().map(|p| (p.1 * 2, p.0 + 10)).collect();
    ensure!(
        st,
        m.as_ref() == Some(&want),
        "{n}: apply {m:?}, expected {want:?}"
    );
    if p.len() == 2 {
        let s = |x: i64| len::<T::Scalar>(x as f64);
        let (a, b) = (p[0], p[1]);
        let l = Line2::new(v[0], v[1]);
        for (o, what) in [
            (
                Line2::<T>::from([s(a.0), s(a.1), s(b.0), s(b.1)]),
                "four numbers",
            ),
            (
                Line2::<T>::from([[s(a.0), s(a.1)], [s(b.0), s(b.1)]]),
                "two pairs",
            ),
        ] {
            ensure!(
                st,
                i(o) == (p3[0], p3[1]) && o == l,
                "{n}: a line from {what} is {o:?}"
            );
        }
    }
}
fn book3<T: GenericVector3>(n: &str, p: &[P3], st: &mut Local) {
    let v: Vec<T> = ms3(p);
    let i = |l: Line3<T>| (int3(l.start).unwrap(), int3(l.end).unwrap());
    st.calls += 5;
    ensure!(
        st,
        v.is_connected() == (p.first() == p.last()),
        "{n}: is_connected {}",
        v.is_connected()
    );
    let w: Vec<_> = v.window_iter().map(i).collect();
    ensure!(st, w == windows(p), "{n}: window_iter {w:?}");
    let c: Vec<_> = v.chunk_iter().map(i).collect();
    ensure!(st, c == chunks(p), "{n}: chunk_iter {c:?}");
    let (mut a, mut b) = (v.window_iter(), v.chunk_iter());
    let odd: Vec<P3> = b.remainder().iter().map(|p| int3(*p).unwrap()).collect();
    ensure!(
        st,
        odd == p.chunks_exact(2).remainder(),
        "{n}: remainder {odd:?}"
    );
    for left in (0..=w.len()).rev() {
        ensure!(
            st,
            a.len() == left && a.is_empty() == (left == 0),
            "{n}: window_iter says {} are left of {left}",
            a.len()
        );
        let _ = a.next();
    }
    for left in (0..=c.len()).rev() {
        ensure!(
            st,
            b.len() == left && b.is_empty() == (left == 0),
            "{n}: chunk_iter says {} are left of {left}",
            b.len()
        );
        let _ = b.next();
    }
    let f = |q: T| T::new_3d(q.y() * sc(2.0), q.z(), q.x() + len(10.0));
    let g = |p: P3| (p.1 * 2, p.2, p.0 + 10);
    let mut m = v.clone();
    LineString3::apply(&mut m, &f);
    let m: Option<Vec<P3>> = m.iter().map(|p| int3(*p)).collect();
    let want: Vec<P3> = p.iter().map(|p| g(*p)).collect();
    ensure!(
        st,
        m.as_ref() == Some(&want),
        "{n}: apply {m:?}, expected {want:?}"
    );
    if p.len() == 2 {
        let s = |x: i64| len::<T::Scalar>(x as f64);
        let (a, b) = (p[0], p[1]);
        let l = Line3::new(v[0], v[1]);
        ensure!(
            st,
            i(l.apply(f)) == (g(a), g(b)),
            "{n}: apply to a line {:?}",
            l.apply(f)
        );
        for (o, what) in [
            (
                Line3::<T>::from([s(a.0), s(a.1), s(a.2), s(b.0), s(b.1), s(b.2)]),
                "six numbers",
            ),
            (Line3::<T>::from([v[0], v[1]]), "two points"),
        ] {
            ensure!(
                st,
                i(o) == (a, b) && o == l,
                "{n}: a line from {what} is {o:?}"
            );
        }
    }
}

fn c19(t: Tier) -> Vec<Box<dyn Family>> {
    let mut v: Vec<Box<dyn Family>> = Vec::new();
    let rule = "two points or more";
    let k = t.pick(7, 9);
    v.push(fam(
        format!(
            "every line string of up to {k} points of a 3x2 grid, with a third coordinate in space"
        ),
        rule,
        seq_count(6, 0, k),
        move |i| grid_seq(i, 3, 2, 0, k),
        |p: &Vec<P>, st| {
            if p.len() > 1 {
                st.nontrivial += 1;
            }
            st.state(p);
            book2::<DVec2>("DVec2", p, st);
            let q: Vec<P3> = p.iter().map(|p| (p.0, p.1, 4 - p.0 * p.0 - p.1)).collect();
            book3::<DVec3>("DVec3", &q, st);
        },
    ));
    v.push(fam(
        "every line string of up to 4 points of a 3x2 grid, for every vector type",
        rule,
        seq_count(6, 0, 4),
        move |i| grid_seq(i, 3, 2, 0, 4),
        |p: &Vec<P>, st| {
            if p.len() > 1 {
                st.nontrivial += 1;
            }
            for_2d!(T, n, { book2::<T>(n, p, st) });
            // the points differ in the third coordinate only
            for q in [
                p.iter().map(|p| (p.0, p.1, 4 - p.0)).collect::<Vec<P3>>(),
                p.iter().map(|p| (1, 2, p.0 + 3 * p.1)).collect(),
            ] {
                for_3d!(T, n, { book3::<T>(n, &q, st) });
            }
        },
    ));
    v.push(fam_list(
        "long line strings, open and closed",
        rule,
        (7..t.pick(140, 600))
            .chain([255, 256, 257, 1023, 1024, 1025, 4097, 65535, 65536, 65537])
            .flat_map(|n| [(n, false), (n, true)])
            .collect::<Vec<(i64, bool)>>(),
        |(n, closed): &(i64, bool), st| {
            st.nontrivial += 1;
            let mut p: Vec<P> = (0..*n).map(|i| (i % 5003, i * i % 11)).collect();
            if *closed {
                p.push(p[0]);
            }
            book2::<DVec2>("DVec2", &p, st);
            let q: Vec<P3> = p.iter().map(|p| (p.0, p.1, p.0 % 5)).collect();
            book3::<DVec3>("DVec3", &q, st);
        },
    ));
    v.push(fam(
        "line strings of 2 to 5 and 50 points whose last point is the first one, but for up to 2 of the smallest possible steps in one coordinate, every vector type",
        "the line string is open",
        6 * 5 * 3 * 4,
        |i| (i % 6, i / 6 % 5, i / 30 % 3, i / 90),
        |(n, step, axis, place): &(u64, u64, u64, u64), st| {
            let n = if *n == 5 { 50 } else { *n as usize + 2 };
            let step = *step as i64 - 2;
            let at: f64 = [1.0, 17.25, -3.0e5, 4.0e-9][*place as usize];
            if step != 0 {
                st.nontrivial += 1;
            }
            let moved = |single: bool| {
                if single {
                    f64::from(f32::from_bits(((at as f32).to_bits() as i64 + step) as u32))
                } else {
                    f64::from_bits((at.to_bits() as i64 + step) as u64)
                }
            };
            macro_rules! judge {
                ($T:ident, $n:ident, $count:expr, $point:expr, $axes:expr) => {
                    if *axis < $axes {
                        let single = std::mem::size_of::<<$T as HasXY>::Scalar>() == 4;
                        let point = $point;
                        let mut v: Vec<$T> = (0..n).map(|i| point([at + i as f64, at - (i * i) as f64, at])).collect();
                        let mut last = [if single { f64::from(at as f32) } else { at }; 3];
                        last[*axis as usize] = moved(single);
                        v[n - 1] = point(last);
                        let closed = step == 0;
                        st.calls += 2;
                        ensure!(st, v.is_connected() == closed, "{}: {v:?}: is_connected {}", $n, !closed);
                        let count = $count(&v, if closed && n > 2 { n - 1 } else { n });
                        ensure!(st, count, "{}: {v:?} has the wrong number of points", $n);
                        let lines = v.window_iter().len();
                        ensure!(st, lines == n - 1, "{}: {v:?} has {lines} lines", $n);
                    }
                };
            }
            for_2d!(T, n, {
                judge!(T, n, |v: &Vec<T>, want: usize| v.point_count() == want, |c: [f64; 3]| T::new_2d(sc(c[0]), sc(c[1])), 2);
            });
            for_3d!(T, n, { judge!(T, n, |_: &Vec<T>, _: usize| true, |c: [f64; 3]| T::new_3d(sc(c[0]), sc(c[1]), sc(c[2])), 3) });
        },
    ));
    v
}

// ------------------------------------------------------------------ C23

/// the answers of the comparisons of two line strings, which are points moved by `off[i]`
fn near_lists(off: &[usize], longer: usize, st: &mut Local) {
    // what a coordinate is moved by, and whether the two comparisons below accept it
    let moves = [
        (0.0, true, true),
        (1e-4, true, false),
        (-1e-4, true, false),
        (0.5, false, false),
        (f64::NAN, false, false),
    ];
    let base = |i: usize, axis: usize| (i * i % 61 + 3 * axis + 1) as f64;
    let n = off.len() / 3;
    let mv = |i: usize, axis: usize| moves[off[i * 3 + axis]];
    let all = |f: &dyn Fn((f64, bool, bool)) -> bool, axes: usize| {
        (0..n).all(|i| (0..axes).all(|k| f(mv(i, k))))
    };
    macro_rules! lists {
        ($T:ident, $n:ident, $new:expr, $axes:expr, $A:ident) => {{
            let new = $new;
            let a: Vec<$T> = (0..n)
                .map(|i| new([base(i, 0), base(i, 1), base(i, 2)]))
                .collect();
            let mut b: Vec<$T> = (0..n)
                .map(|i| {
                    new([
                        base(i, 0) + mv(i, 0).0,
                        base(i, 1) + mv(i, 1).0,
                        base(i, 2) + mv(i, 2).0,
                    ])
                })
                .collect();
            for k in 0..longer {
                b.push(new([k as f64, 0.0, 0.0]));
            }
            let same = longer == 0;
            let wide = same && all(&|m| m.1, $axes);
            let narrow = same && all(&|m| m.2, $axes);
            for (x, y, dir) in [(&a, &b, "a,b"), (&b, &a, "b,a")] {
                st.calls += 4;
                let g = $A::abs_diff_eq(x, y, sc(1e-3));
                ensure!(
                    st,
                    g == wide,
                    "{} {dir}: abs_diff_eq 1e-3 of {x:?}, {y:?}: {g}",
                    $n
                );
                let g = $A::abs_diff_eq(x, y, sc(1e-5));
                ensure!(
                    st,
                    g == narrow,
                    "{} {dir}: abs_diff_eq 1e-5 of {x:?}, {y:?}: {g}",
                    $n
                );
                let g = $A::ulps_eq(x, y, sc(1e-3), 4);
                ensure!(
                    st,
                    g == wide,
                    "{} {dir}: ulps_eq 1e-3 of {x:?}, {y:?}: {g}",
                    $n
                );
                let g = $A::ulps_eq(x, y, sc(1e-5), 4);
                ensure!(
                    st,
                    g == narrow,
                    "{} {dir}: ulps_eq 1e-5 of {x:?}, {y:?}: {g}",
                    $n
                );
            }
        }};
    }
    for_2d!(T, n, {
        lists!(T, n, |c: [f64; 3]| v2::<T>(c[0], c[1]), 2, Approx2)
    });
    for_3d!(T, n, {
        lists!(T, n, |c: [f64; 3]| v3::<T>(c[0], c[1], c[2]), 3, Approx3)
    });
}

/// the value `k` representable steps above `v`
fn up<S: vector_traits::GenericScalar>(v: f64, k: u64) -> S {
    let step = if std::mem::size_of::<S>() == 4 {
        f64::from(f32::from_bits((v as f32).to_bits() + k as u32)) - f64::from(v as f32)
    } else {
        f64::from_bits(v.to_bits() + k) - v
    };
    sc(v + step)
}
fn by_steps(steps: &[u64], sign: f64, st: &mut Local) {
    let base = [3.0, 5.0, 17.0, 9.0, 6.0, 33.0].map(|b| b * sign);
    for max in [0u32, 1, 4, 20] {
        let within = |axes: usize| (0..2).all(|i| (0..axes).all(|k| steps[3 * i + k] <= u64::from(max)));
        for_2d!(T, n, {
            let at = |i: usize, m: bool| -> T {
                let c = |k: usize| up(base[3 * i + k], if m { steps[3 * i + k] } else { 0 });
                T::new_2d(c(0), c(1))
            };
            let (a, b) = (vec![at(0, false), at(1, false)], vec![at(0, true), at(1, true)]);
            let (l, m) = (Line2::new(a[0], a[1]), Line2::new(b[0], b[1]));
            let r = Line2::new(b[1], b[0]);
            let want = within(2);
            let zero = sc::<<T as vector_traits::HasXY>::Scalar>(0.0);
            st.calls += 6;
            for (x, y) in [(&a, &b), (&b, &a)] {
                let g = Approx2::ulps_eq(x, y, zero, max);
                ensure!(st, g == want, "{n}: ulps_eq within {max} steps of {x:?}, {y:?} is {g}");
            }
            for (x, y) in [(&l, &m), (&m, &l), (&l, &r), (&r, &l)] {
                let g = UlpsEq::ulps_eq(x, y, zero, max);
                ensure!(st, g == want, "{n}: ulps_eq within {max} steps of {x:?}, {y:?} is {g}");
            }
        });
        for_3d!(T, n, {
            let at = |i: usize, m: bool| -> T {
                let c = |k: usize| up(base[3 * i + k], if m { steps[3 * i + k] } else { 0 });
                T::new_3d(c(0), c(1), c(2))
            };
            let (a, b) = (vec![at(0, false), at(1, false)], vec![at(0, true), at(1, true)]);
            let zero = sc::<<T as vector_traits::HasXY>::Scalar>(0.0);
            st.calls += 2;
            for (x, y) in [(&a, &b), (&b, &a)] {
                let g = Approx3::ulps_eq(x, y, zero, max);
                ensure!(st, g == within(3), "{n}: ulps_eq within {max} steps of {x:?}, {y:?} is {g}");
            }
        });
    }
}
/// Each of the six coordinates of two points moved by a multiple of the limit.
fn at_limit(moves: &[f64], limit: f64, st: &mut Local) {
    let base = [3.0, -5.0, 17.0, 40.0, -60.0, 33.0];
    // (zero times a limit is no move at all)
    let within = |axes: usize| limit == 0.0 || (0..2).all(|i| (0..axes).all(|k| moves[3 * i + k].abs() <= 1.0));
    for_2d!(T, n, {
        let at = |i: usize, m: f64| -> T {
            let c = |k: usize| sc(base[3 * i + k] + m * limit * moves[3 * i + k]);
            T::new_2d(c(0), c(1))
        };
        let (a, b) = (vec![at(0, 0.0), at(1, 0.0)], vec![at(0, 1.0), at(1, 1.0)]);
        let (l, m, r) = (Line2::new(a[0], a[1]), Line2::new(b[0], b[1]), Line2::new(b[1], b[0]));
        let (want, eps) = (within(2), sc::<<T as vector_traits::HasXY>::Scalar>(limit));
        st.calls += 12;
        for (x, y) in [(&a, &b), (&b, &a)] {
            let g = (Approx2::abs_diff_eq(x, y, eps), Approx2::ulps_eq(x, y, eps, 0));
            ensure!(st, g == (want, want), "{n}: within {limit}: {x:?}, {y:?} is {g:?}");
        }
        for (x, y) in [(&l, &m), (&m, &l), (&l, &r), (&r, &l)] {
            let g = (AbsDiffEq::abs_diff_eq(x, y, eps), UlpsEq::ulps_eq(x, y, eps, 0));
            ensure!(st, g == (want, want), "{n}: within {limit}: {x:?}, {y:?} is {g:?}");
        }
    });
    for_3d!(T, n, {
        let at = |i: usize, m: f64| -> T {
            let c = |k: usize| sc(base[3 * i + k] + m * limit * moves[3 * i + k]);
            T::new_3d(c(0), c(1), c(2))
        };
        let (a, b) = (vec![at(0, 0.0), at(1, 0.0)], vec![at(0, 1.0), at(1, 1.0)]);
        let (want, eps) = (within(3), sc::<<T as vector_traits::HasXY>::Scalar>(limit));
        st.calls += 4;
        for (x, y) in [(&a, &b), (&b, &a)] {
            let g = (Approx3::abs_diff_eq(x, y, eps), Approx3::ulps_eq(x, y, eps, 0));
            ensure!(st, g == (want, want), "{n}: within {limit}: {x:?}, {y:?} is {g:?}");
        }
    });
}

/// Two lines of special values, which differ in one coordinate: sign of zero, the largest numbers, infinities, not a number
fn special(l: [f64; 4], at: usize, with: f64, st: &mut Local) {
    let mut m = l;
    m[at] = with;
    for_2d!(T, n, {
        type S = <T as vector_traits::HasXY>::Scalar;
        let wide = std::mem::size_of::<S>() == 8;
        // (1e300 stands for the largest finite number of the type)
        let real = |c: f64| if c.abs() == 1e300 { c.signum() * if wide { f64::MAX } else { f64::from(f32::MAX) } } else { c };
        let same = |a: [f64; 4], b: [f64; 4], eps: f64| {
            (0..4).all(|k| real(a[k]) == real(b[k]) || (real(a[k]) - real(b[k])).abs() <= eps)
        };
        let turn = |a: [f64; 4]| [a[2], a[3], a[0], a[1]];
        let (x, y) = (line_from::<T>(l.map(real)), line_from::<T>(m.map(real)));
        let (xs, ys) = (vec![x.start, x.end], vec![y.start, y.end]);
        let finite = l.iter().chain(&m).all(|c| c.is_finite());
        let infinite = l.iter().chain(&m).any(|c| c.is_infinite());
        for eps in [0.0, 0.5, 2.0] {
            let straight = same(l, m, eps);
            let want = straight || same(l, turn(m), eps);
            for (x, y) in [(x, y), (y, x)] {
                let r = Line2::new(y.end, y.start);
                st.calls += 4;
                for (x, y) in [(&x, &y), (&x, &r)] {
                    let g = UlpsEq::ulps_eq(x, y, sc(eps), 0);
                    ensure!(st, g == want, "{n}: ulps_eq within {eps}: {x:?}, {y:?} is {g}");
                    // (the difference of two infinities is not a number)
                    let g = AbsDiffEq::abs_diff_eq(x, y, sc(eps));
                    ensure!(st, g == want || infinite, "{n}: abs_diff_eq within {eps}: {x:?}, {y:?} is {g}");
                }
            }
            if finite {
                for (x, y) in [(&xs, &ys), (&ys, &xs)] {
                    st.calls += 2;
                    let g = (Approx2::abs_diff_eq(x, y, sc(eps)), Approx2::ulps_eq(x, y, sc(eps), 0));
                    ensure!(st, g == (straight, straight), "{n}: within {eps}: {x:?}, {y:?} is {g:?}");
                }
            }
        }
        // (the largest number and infinity are neighbours)
        let near = l[at] != m[at] && l[at].abs() >= 1e300 && m[at].abs() >= 1e300;
        if !near {
            st.calls += 2;
            let (g, h, want) = (x == y, y == x, same(l, m, 0.0));
            ensure!(st, (g, h) == (want, want), "{n}: {x:?} == {y:?} is {g}, {h}");
        }
    });
}

fn c23(t: Tier) -> Vec<Box<dyn Family>> {
    let mut v: Vec<Box<dyn Family>> = Vec::new();
    v.push(fam(
        "lines of zeros with a sign, the largest numbers, infinities and not a number, which differ in at most one coordinate, every vector type",
        "some coordinate is not finite",
        8u64.pow(5) * 4,
        |i| {
            let value = |k: u64| [0.0, -0.0, 1.5, 1e300, -1e300, f64::INFINITY, f64::NEG_INFINITY, f64::NAN][(k % 8) as usize];
            ([value(i), value(i / 8), value(i / 64), value(i / 512)], (i / 4096 % 4) as usize, value(i / 16384))
        },
        |&(l, at, with): &([f64; 4], usize, f64), st| {
            st.nontrivial += u64::from(!l.iter().all(|c| c.is_finite()) || !with.is_finite());
            st.state(&(l.map(f64::to_bits), at, with.to_bits()));
            special(l, at, with, st);
        },
    ));
    v.push(fam(
        "every pair of lines with ends on a 3x3 grid, exact or moved a little, compared in every way and direction, for every vector type",
        "the lines have an end in common",
        81 * 81,
        |i| {
            let p = |k: u64| grid(k % 9, 3);
            (p(i), p(i / 9), p(i / 81), p(i / 729))
        },
        |(a, b, c, d): &(P, P, P, P), st| {
            if a == c || b == d || a == d || b == c {
                st.nontrivial += 1;
            }
            let straight = (a, b) == (c, d);
            st.state(&(a, b, c, d));
            let either = straight || (a, b) == (d, c);
            for_2d!(T, n, {
                let l = Line2::<T>::new(m2(*a), m2(*b));
                for (off, seen) in [(0.0, false), (1e-4, true)] {
                    for which in 0..4usize {
                        let mut z = [c.0 as f64, c.1 as f64, d.0 as f64, d.1 as f64];
                        z[which] += off;
                        let m = line_from::<T>(z);
                        st.calls += 6;
                        ensure!(st, (l == m) == (straight && !seen), "{n}: {l:?} == {m:?} is {}", l == m);
                        // limits longer than the lines themselves: both directions may agree at their starts
                        let e = [(a.0 - c.0).abs().max((a.1 - c.1).abs()), (b.0 - d.0).abs().max((b.1 - d.1).abs())];
                        let r = [(a.0 - d.0).abs().max((a.1 - d.1).abs()), (b.0 - c.0).abs().max((b.1 - c.1).abs())];
                        let gap = e[0].max(e[1]).min(r[0].max(r[1]));
                        for (x, y) in [(&l, &m), (&m, &l)] {
                            for (eps, near) in [(1e-5, either && !seen), (1e-3, either), (1.25, gap <= 1)] {
                                let g = AbsDiffEq::abs_diff_eq(x, y, sc(eps));
                                ensure!(st, g == near, "{n}: abs_diff_eq {eps} of {x:?}, {y:?} is {g}");
                                let g = UlpsEq::ulps_eq(x, y, sc(eps), 4);
                                ensure!(st, g == near, "{n}: ulps_eq {eps} of {x:?}, {y:?} is {g}");
                            }
                        }
                    }
                }
            });
        },
    ));
    let k = t.pick(2, 3);
    let per = 5u64.pow(3 * k);
    v.push(fam(
        format!("every pair of line strings of {k} points where each coordinate is equal, moved a little, moved far or not a number, and of unequal lengths"),
        "some coordinate is moved",
        per * 2,
        move |i| (seq_decode(i / 2 % per, 5, 3 * k, 3 * k).iter().map(|x| *x as usize).collect::<Vec<usize>>(), (i % 2) as usize),
        |(off, longer): &(Vec<usize>, usize), st| {
            if off.iter().any(|x| *x > 0) {
                st.nontrivial += 1;
            }
            st.state(&(off, longer));
            near_lists(off, *longer, st);
        },
    ));
    v.push(fam(
        "lines and line strings with each coordinate moved by none, 1, 4 or 5 of the smallest possible steps, within 0, 1, 4 and 20 steps, every vector type",
        "some coordinate is moved",
        4u64.pow(6) * 2,
        |i| {
            let sign = if i % 2 == 0 { 1.0 } else { -1.0 };
            (seq_decode(i / 2, 4, 6, 6).iter().map(|x| [0u64, 1, 4, 5][*x as usize]).collect::<Vec<u64>>(), sign)
        },
        |(steps, sign): &(Vec<u64>, f64), st| {
            st.nontrivial += u64::from(steps.iter().any(|s| *s > 0));
            st.state(&(steps, *sign > 0.0));
            by_steps(steps, *sign, st);
        },
    ));
    // the limit itself is within the limit
    v.push(fam(
        "lines and line strings with each coordinate moved by none, half, all or twice of the limit, limits 1/1024, 1/2, 3 and 0, every vector type",
        "some coordinate is moved",
        5u64.pow(6) * 4,
        |i| (seq_decode(i / 4, 5, 6, 6).iter().map(|x| [0.0, 0.5, 1.0, -1.0, 2.0][*x as usize]).collect::<Vec<f64>>(), (i % 4) as usize),
        |(moves, limit): &(Vec<f64>, usize), st| {
            st.nontrivial += u64::from(moves.iter().any(|s| *s != 0.0));
            let limit: f64 = [1.0 / 1024.0, 0.5, 3.0, 0.0][*limit];
            st.state(&(limit.to_bits(), moves.iter().map(|m| m.to_bits()).collect::<Vec<_>>()));
            at_limit(moves, limit, st);
        },
    ));
    v.push(fam(
        "long line strings of up to 300 points, equal but for one coordinate, for every vector type",
        "always",
        300 * 3 * 3,
        |i| ((i / 9) as usize, (i / 3 % 3) as usize, [0usize, 1, 100][(i % 3) as usize]),
        |&(at, axis, more): &(usize, usize, usize), st| {
            st.nontrivial += 1;
            let mut off = vec![0usize; 3 * (at + 1 + more)];
            off[3 * at + axis] = 1;
            near_lists(&off, 0, st);
        },
    ));
    v.push(fam_list(
        "line strings of up to 70000 points, equal but for one coordinate, for every vector type",
        "always",
        [1023usize, 1024, 4096, 65_534, 65_535, 65_536, 69_999]
            .into_iter()
            .flat_map(|at| (0..6usize).map(move |k| (at, k % 3, [0usize, 70_000 - 1 - at][k / 3])))
            .collect::<Vec<(usize, usize, usize)>>(),
        |&(at, axis, more): &(usize, usize, usize), st| {
            st.nontrivial += 1;
            let mut off = vec![0usize; 3 * (at + 1 + more)];
            off[3 * at + axis] = 1;
            near_lists(&off, 0, st);
            off[3 * at + axis] = 3;
            near_lists(&off, 0, st);
        },
    ));
    v.push(fam_list(
        "line strings of 65536 points more than the other one",
        "always",
        vec![0usize, 1, 2, 300],
        |n: &usize, st| {
            st.nontrivial += 1;
            near_lists(&vec![0; n * 3], 65_536, st);
        },
    ));
    v.push(fam_list(
        "empty line strings and lengths that differ",
        "always",
        vec![
            (0usize, 0usize),
            (0, 1),
            (1, 1),
            (1, 3),
            (5, 0),
            (5, 1),
            (5, 2),
        ],
        |(n, longer): &(usize, usize), st| {
            st.nontrivial += 1;
            near_lists(&vec![0; n * 3], *longer, st);
        },
    ));
    v
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C14",
            families: |t| with_digits(with_zeros(with_scales(c14, t, &["every line string"], &[(-1000, -120), (1000, 105)]), c14, &["every line string", "every plane figure"]), c14, &["every line string", "every plane figure"]),
            bounds: "boxes with all sides from 7 sizes at 5 places and at 3 magnitudes, every vector type; all line strings of up to 3 (thorough 4) points of a 3x3x3 grid; all figures of 2 to 4 points of a 3x3 grid in every plane; long line strings up to 70000 points",
            assumptions: &["sides between 1e-17 and 1.9e-7 of the longest, at the limit of what counts as flat, are not decided"],
        },
        Prop {
            id: "C19",
            families: |t| with_digits(with_zeros(with_scales(c19, t, &["for every vector type"], &[(-1000, -120), (-60, -30), (200, 18), (1000, 105)]), c19, &["for every vector type"]), c19, &["for every vector type"]),
            bounds: "all line strings of up to 7 (thorough 9) points of a 3x2 grid in the plane and in space, up to 4 for every vector type; long ones of 255 to 65537 points",
            assumptions: &[],
        },
        Prop {
            id: "C23",
            families: |t| with_zeros(c23(t), c23, &["exact or moved a little"]),
            bounds: "all pairs of lines with ends on a 3x3 grid, each coordinate exact or moved; all combinations of 5 deviations per coordinate of 2 (thorough 3) points; all combinations of moves by 0, 1, 4 or 5 representable steps; lines of zeros with a sign, the largest numbers, infinities and not a number; line strings of up to 70000 points; every vector type",
            assumptions: &["the deviations are well inside or outside of the tolerances"],
        },
    ]
}
fn line_from<T: GenericVector2>(z: [f64; 4]) -> Line2<T> {
    Line2::from(z.map(sc::<T::Scalar>))
}
