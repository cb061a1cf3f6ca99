//! C17 line strings against lines and rays, C20 distances.
use super::seg::{judge, line, rounded_at, rounded_ok, Seg};
use super::simp::{long_lines, map3, seg_dist, MAPS3};
use crate::fw::*;
use crate::geo::*;
use crate::{ensure, for_2d, for_3d};
use linestring::linestring_2d::{self, Intersection, Line2, LineString2};
use linestring::linestring_3d;
use std::collections::BTreeSet;
use vector_traits::glam::DVec2;
use vector_traits::{GenericVector2, GenericVector3};

// ------------------------------------------------------------------ C17

type Rat = (i64, i64, i64);

/// every place where the line string and the segment meet
fn places(p: &[P], s: Seg) -> BTreeSet<Rat> {
    let mut v = BTreeSet::new();
    for w in p.windows(2) {
        match common(w[0], w[1], s.0, s.1) {
            Common::Nothing => (),
            Common::Point(x, y, n) => {
                v.insert((x, y, n));
            }
            Common::Overlap(a, b) => {
                v.insert((a.0, a.1, 1));
                v.insert((b.0, b.1, 1));
            }
        }
    }
    v
}

/// `convex`: the line string is the outline of a convex polygon
fn meets<T: GenericVector2>(n: &str, p: &[P], s: Seg, convex: bool, st: &mut Local) {
    let v: Vec<T> = ms2(p);
    let l = line::<T>(s);
    let t = tol::<T::Scalar>(max_abs(p).max(max_abs(&[s.0, s.1])));
    let want: Vec<Common> = p
        .windows(2)
        .map(|w| common(w[0], w[1], s.0, s.1))
        .filter(|c| *c != Common::Nothing)
        .collect();
    st.calls += 3;
    let all = v.find_all_intersections(&l);
    let mut ok = all.len() == want.len();
    let some: Vec<_> = all.into_iter().map(Some).collect();
    ok = ok && some.iter().zip(&want).all(|(g, w)| judge(g, *w, t));
    ensure!(
        st,
        ok,
        "{n}: all intersections of {p:?} and {s:?}: {some:?}, expected {want:?}"
    );
    let first = v.intersection(&l);
    let w = want.first().copied().unwrap_or(Common::Nothing);
    ensure!(
        st,
        judge(&first, w, t),
        "{n}: the first intersection of {p:?} and {s:?}: {first:?}, expected {w:?}"
    );
    let at = places(p, s);
    let got = v.find_two_intersections(&l);
    let pts: Vec<(f64, f64)> = [got.0, got.1].into_iter().flatten().map(un2).collect();
    let place = |q: &(f64, f64)| at.iter().position(|r| is_at(q.0, q.1, *r, t));
    let found: Vec<Option<usize>> = pts.iter().map(place).collect();
    ensure!(
        st,
        found.iter().all(|f| f.is_some()),
        "{n}: two intersections of {p:?} and {s:?}: {got:?}, they meet at {at:?}"
    );
    ensure!(
        st,
        got.0.is_some() || got.1.is_none(),
        "{n}: two intersections of {p:?} and {s:?}: {got:?}"
    );
    ensure!(
        st,
        pts.is_empty() == at.is_empty(),
        "{n}: two intersections of {p:?} and {s:?}: {got:?}, they meet at {at:?}"
    );
    if convex {
        let mut f = found.clone();
        f.sort();
        f.dedup();
        ensure!(
            st,
            f.len() == found.len() && f.len() == at.len(),
            "{n}: two intersections of the polygon {p:?} and {s:?}: {got:?}, they meet at {at:?}"
        );
    }
}

/// `meets` with coordinates that are rounded
fn meets_rounded<T: GenericVector2>(n: &str, g: &RoundedGrid, p: &[P], s: Seg, tol: f64, convex: bool, st: &mut Local) {
    let on = |p: P| rounded_at::<T>(g, p);
    let v: Vec<T> = p.iter().map(|p| on(*p)).collect();
    let l = Line2 { start: on(s.0), end: on(s.1) };
    let e: Vec<Seg> = p.windows(2).map(|w| (w[0], w[1])).collect();
    // can the reports be distributed over the segments from k on?
    fn fits<T: GenericVector2>(g: &RoundedGrid, e: &[Seg], s: Seg, r: &[Option<Intersection<T>>], tol: f64) -> bool {
        match (e, r) {
            ([], r) => r.is_empty(),
            ([a, e @ ..], r) => {
                (rounded_ok::<T>(g, *a, s, &None, tol) && fits(g, e, s, r, tol))
                    || (!r.is_empty() && rounded_ok(g, *a, s, &r[0], tol) && fits(g, e, s, &r[1..], tol))
            }
        }
    }
    st.calls += 3;
    let all: Vec<_> = v.find_all_intersections(&l).into_iter().map(Some).collect();
    ensure!(st, fits(g, &e, s, &all, tol), "{n}: all intersections of {v:?} and {l:?}: {all:?}");
    let first = v.intersection(&l);
    let k = e.iter().position(|a| first.is_some() && rounded_ok(g, *a, s, &first, tol)).unwrap_or(e.len());
    ensure!(
        st,
        (first.is_none() || k < e.len()) && e[..k].iter().all(|a| rounded_ok::<T>(g, *a, s, &None, tol)),
        "{n}: the first intersection of {v:?} and {l:?}: {first:?}"
    );
    let two = v.find_two_intersections(&l);
    let found: Vec<T> = [two.0, two.1].into_iter().flatten().collect();
    let there = |p: &T| {
        e.iter().any(|a| match common(a.0, a.1, s.0, s.1) {
            Common::Nothing => false,
            Common::Overlap(lo, hi) => {
                rounded_ok(g, (lo, lo), (lo, lo), &Some(Intersection::Intersection(*p)), tol)
                    || rounded_ok(g, (hi, hi), (hi, hi), &Some(Intersection::Intersection(*p)), tol)
                    || rounded_ok(g, *a, s, &Some(Intersection::Intersection(*p)), tol)
            }
            _ => rounded_ok(g, *a, s, &Some(Intersection::Intersection(*p)), tol),
        })
    };
    let at = places(p, s);
    // every place is a crossing away from the ends, or an end of both
    let clear = e.iter().all(|a| match common(a.0, a.1, s.0, s.1) {
        Common::Nothing => true,
        Common::Overlap(..) => false,
        _ => !rounded_ok::<T>(g, *a, s, &None, tol),
    });
    ensure!(
        st,
        found.iter().all(there) && (two.0.is_some() || two.1.is_none()) && (!clear || found.is_empty() == at.is_empty()) && (!clear || !convex || found.len() == at.len()),
        "{n}: two intersections of {v:?} and {l:?}: {two:?}, on the grid they meet at {at:?}"
    );
    // the segment goes right through the polygon, in and out through edges or corners
    let through = convex
        && at.len() == 2
        && 20.0 * tol * g.unit() < g.spacing()
        && e.iter().all(|a| !matches!(common(a.0, a.1, s.0, s.1), Common::Overlap(..)))
        && !e.iter().any(|a| on_segment(a.0, a.1, s.0) || on_segment(a.0, a.1, s.1));
    if through {
        let place = |q: &T| {
            at.iter().position(|(x, y, d)| {
                e.iter().any(|a| common(a.0, a.1, s.0, s.1) == Common::Point(*x, *y, *d) && rounded_ok(g, *a, s, &Some(Intersection::Intersection(*q)), tol))
            })
        };
        let k: BTreeSet<Option<usize>> = found.iter().map(place).collect();
        ensure!(st, k.len() == 2, "{n}: two intersections of {v:?} and {l:?}: {two:?}, on the grid they meet at {at:?}");
        if !clear {
            st.tag("rounded: through corners");
        }
    }
    st.tag(if clear { "rounded: clear" } else { "rounded: what is reported has to be there" });
}
/// rays with coordinates that are rounded
fn ray_rounded<T: GenericVector2>(n: &str, g: &RoundedGrid, o: P, d: P, p: &[P], tol: f64, st: &mut Local) {
    let on = |p: P| rounded_at::<T>(g, p);
    let to = (o.0 + d.0, o.1 + d.1);
    let (oo, dd) = (on(o), on(to) - on(o));
    let v: Vec<T> = p.iter().map(|p| on(*p)).collect();
    let (of, df) = (un2(oo), un2(dd));
    let unit = g.unit();
    // the distance of a point to a segment
    let away = |q: (f64, f64), a: P, b: P| {
        let (a, b) = (un2(on(a)), un2(on(b)));
        let (dx, dy) = (b.0 - a.0, b.1 - a.1);
        let l = dx * dx + dy * dy;
        let k = if l == 0.0 { 0.0 } else { (((q.0 - a.0) * dx + (q.1 - a.1) * dy) / l).clamp(0.0, 1.0) };
        (q.0 - a.0 - k * dx).abs().max((q.1 - a.1 - k * dy).abs())
    };
    let mut best: Option<(i64, i64)> = None;
    // a corner between two sides of the ray
    for w in p.windows(3) {
        let side = |q: P| (d.0 * (q.1 - o.1) - d.1 * (q.0 - o.0)).signum();
        let t = dot(sub(w[1], o), d);
        if side(w[1]) == 0 && t > 0 && side(w[0]) * side(w[2]) < 0 && best.is_none_or(|b| t * b.1 < b.0 * dot(d, d)) {
            best = Some((t, dot(d, d)));
            st.tag("rounded: ray through a corner");
        }
    }
    let mut clear = true;
    for w in p.windows(2) {
        st.calls += 1;
        let got = <Vec<T> as LineString2<T>>::ray_edge_intersection(oo, dd, on(w[0]), on(w[1])).map(f);
        let want = ray_hit(o, d, w[0], w[1]);
        // away from the ends of the ray and of the segment
        let inside = want.is_some_and(|(t, k)| {
            t > 0 && !on_line(o, to, w[0]) && !on_line(o, to, w[1]) && !on_segment(w[0], w[1], o) && k > 0
        });
        let ok = match got {
            None => !inside,
            Some(t) => want.is_some() && t >= 0.0 && away((of.0 + df.0 * t, of.1 + df.1 * t), w[0], w[1]) <= tol * unit,
        };
        ensure!(st, ok, "{n}: the ray from {oo:?} towards {dd:?} meets {:?}-{:?} at {got:?}, on the grid at {want:?}", on(w[0]), on(w[1]));
        if want.is_some() && !inside {
            clear = false;
        }
        if inside && best.is_none_or(|b| want.is_some_and(|h| h.0 * b.1 < b.0 * h.1)) {
            best = want;
        }
    }
    st.calls += 1;
    let got = v.closest_ray_intersection(dd, oo).map(un2);
    let at = best.map(|(t, k)| (of.0 + df.0 * t as f64 / k as f64, of.1 + df.1 * t as f64 / k as f64));
    let along = |q: (f64, f64)| (q.0 - of.0) * df.0 + (q.1 - of.1) * df.1;
    let ok = match (got, at) {
        (None, None) => true,
        (None, Some(_)) => false,
        (Some(q), at) => {
            p.windows(2).any(|w| away(q, w[0], w[1]) <= tol * unit)
                && match at {
                    None => !clear,
                    Some(a) if clear => (q.0 - a.0).abs() <= tol * unit && (q.1 - a.1).abs() <= tol * unit,
                    // something else may be closer
                    Some(a) => along(q) <= along(a) + tol * unit * df.0.hypot(df.1),
                }
        }
    };
    ensure!(st, ok, "{n}: the ray from {oo:?} towards {dd:?} meets {v:?} first at {got:?}, on the grid at {at:?}");
    st.tag(if clear { "rounded: clear" } else { "rounded: what is reported has to be there" });
}
fn on_line(a: P, b: P, p: P) -> bool {
    let (s, q) = (sub(b, a), sub(p, a));
    s.0 * q.1 == s.1 * q.0
}
fn note(p: &[P], s: Seg, st: &mut Local) {
    let found = places(p, s);
    let k = found.len();
    st.state(&found);
    if k > 0 {
        st.nontrivial += 1;
    }
    st.tag(match k {
        0 => "no place",
        1 => "one place",
        2 => "two places",
        _ => "more places",
    });
}

/// where the ray first meets the segment, as a fraction of the direction
fn ray_hit(o: P, d: P, a: P, b: P) -> Option<(i64, i64)> {
    let (s, q) = (sub(b, a), sub(a, o));
    let perp = |a: P, b: P| a.0 * b.1 - a.1 * b.0;
    let den = perp(d, s);
    if den != 0 {
        let (mut t, mut u, mut n) = (perp(q, s), perp(q, d), den);
        if n < 0 {
            (t, u, n) = (-t, -u, -n);
        }
        return (t >= 0 && u >= 0 && u <= n).then_some((t, n));
    }
    // parallel, or the segment is a point
    if perp(q, d) != 0 {
        return None;
    }
    let n = dot(d, d);
    let (x, y) = (dot(q, d), dot(sub(b, o), d));
    if x.max(y) < 0 {
        None
    } else {
        Some((x.min(y).max(0), n))
    }
}
fn ray_edge<T: GenericVector2>(n: &str, o: P, d: P, a: P, b: P, st: &mut Local) {
    st.calls += 1;
    let want = ray_hit(o, d, a, b).map(|h| h.0 as f64 / h.1 as f64);
    let got = <Vec<T> as LineString2<T>>::ray_edge_intersection(m2(o), m2(d), m2(a), m2(b)).map(f);
    let ok = match (got, want) {
        (None, None) => true,
        (Some(g), Some(w)) => (g - w).abs() <= tol::<T::Scalar>(max_abs(&[o, d, a, b])),
        _ => false,
    };
    ensure!(
        st,
        ok,
        "{n}: the ray from {o:?} towards {d:?} meets {a:?}-{b:?} at {got:?}, expected {want:?}"
    );
}
/// the same for directions of another length
fn ray_length<T: GenericVector2>(n: &str, o: P, d: P, a: P, b: P, st: &mut Local) {
    let small = std::mem::size_of::<T::Scalar>() == 4;
    let want = ray_hit(o, d, a, b).map(|h| h.0 as f64 / h.1 as f64);
    let at = want.map(|t| (o.0 as f64 + d.0 as f64 * t, o.1 as f64 + d.1 as f64 * t));
    let tol = tol::<T::Scalar>(max_abs(&[o, d, a, b]));
    for k in if small { [-9, 30, 62, 110] } else { [-20, 60, 600, 900] } {
        let l = 2.0f64.powi(k);
        let dd: T = v2(d.0 as f64 * l, d.1 as f64 * l);
        st.calls += 2;
        let got = <Vec<T> as LineString2<T>>::ray_edge_intersection(m2(o), dd, m2(a), m2(b)).map(|t| f(t) * l);
        let ok = match (got, want) {
            (None, None) => true,
            (Some(g), Some(w)) => (g - w).abs() <= tol,
            _ => false,
        };
        ensure!(st, ok, "{n}: the ray from {o:?} towards {d:?} * 2^{k} meets {a:?}-{b:?} at {got:?} / 2^{k}, expected {want:?} / 2^{k}");
        let v: Vec<T> = ms2(&[a, b]);
        let got = v.closest_ray_intersection(dd, m2(o)).map(un2);
        let ok = match (got, at) {
            (None, None) => true,
            (None, Some(_)) => on_segment(a, b, o),
            (Some(g), Some(w)) => (g.0 - w.0).abs() <= tol && (g.1 - w.1).abs() <= tol,
            (Some(_), None) => false,
        };
        ensure!(st, ok, "{n}: the ray from {o:?} towards {d:?} * 2^{k} meets {a:?}-{b:?} at {got:?}, expected {at:?}");
    }
}
fn ray_string<T: GenericVector2>(n: &str, o: P, d: P, p: &[P], st: &mut Local) -> bool {
    st.calls += 1;
    let mut best: Option<(i64, i64)> = None;
    for w in p.windows(2) {
        // segments through the origin of the ray do not count
        if on_segment(w[0], w[1], o) {
            continue;
        }
        if let Some(h) = ray_hit(o, d, w[0], w[1]) {
            if best.is_none_or(|b| h.0 * b.1 < b.0 * h.1) {
                best = Some(h);
            }
        }
    }
    let want = best.map(|(t, n)| {
        (
            o.0 as f64 + d.0 as f64 * t as f64 / n as f64,
            o.1 as f64 + d.1 as f64 * t as f64 / n as f64,
        )
    });
    let v: Vec<T> = ms2(p);
    let got = v.closest_ray_intersection(m2(d), m2(o)).map(un2);
    let t = tol::<T::Scalar>(max_abs(p).max(max_abs(&[o, d])));
    let ok = match (got, want) {
        (None, None) => true,
        (Some(g), Some(w)) => (g.0 - w.0).abs() <= t && (g.1 - w.1).abs() <= t,
        _ => false,
    };
    ensure!(
        st,
        ok,
        "{n}: the ray from {o:?} towards {d:?} meets {p:?} first at {got:?}, expected {want:?}"
    );
    want.is_some()
}

fn c17(t: Tier) -> Vec<Box<dyn Family>> {
    let mut v: Vec<Box<dyn Family>> = Vec::new();
    let rule = "line string and segment meet";
    let k = t.pick(4, 5);
    v.push(fam(
        format!("every line string of up to {k} points of a 3x3 grid with every segment (or point) of the grid"),
        rule,
        seq_count(9, 0, k) * 81,
        move |i| (grid_seq(i / 81, 3, 3, 0, k), (grid(i % 9, 3), grid(i / 9 % 9, 3))),
        |(p, s): &(Vec<P>, Seg), st| {
            note(p, *s, st);
            meets::<DVec2>("DVec2", p, *s, false, st);
        },
    ));
    v.push(fam(
        "every line string of up to 3 points of a 3x3 grid with every segment (or point) of the grid, 10 placements, every vector type",
        rule,
        seq_count(9, 0, 3) * 81 * 10,
        move |i| {
            let m = &MAPS[(i % 10) as usize];
            let i = i / 10;
            (m.all(&grid_seq(i / 81, 3, 3, 0, 3)), (m.on(grid(i % 9, 3)), m.on(grid(i / 9 % 9, 3))))
        },
        |(p, s): &(Vec<P>, Seg), st| {
            note(p, *s, st);
            for_2d!(T, n, { meets::<T>(n, p, *s, false, st) });
        },
    ));
    // convex polygons: at most two places
    let w = t.pick(3, 4);
    let polys = std::sync::Arc::new(convex_polygons(&grid_points(w, w), 3, 9));
    let np = polys.len() as u64;
    let q = (w + 2) as u64;
    let q2 = q * q;
    v.push(fam(
        format!("every convex polygon of a {w}x{w} grid from every corner, with every segment of the grid and its surroundings"),
        rule,
        np * q2 * q2 * 8,
        move |i| {
            let c = &polys[(i / q2 / q2 / 8) as usize];
            let c = close(&rotate(c, (i % 8) as usize % c.len()));
            let i = i / 8;
            let at = |k: u64| ((k % q) as i64 - 1, (k / q) as i64 - 1);
            (c, (at(i % q2), at(i / q2 % q2)))
        },
        |(p, s): &(Vec<P>, Seg), st| {
            note(p, *s, st);
            meets::<DVec2>("DVec2", p, *s, true, st);
        },
    ));
    let polys = std::sync::Arc::new(convex_polygons(&grid_points(3, 3), 3, 9));
    let np = polys.len() as u64;
    v.push(fam(
        "every convex polygon of a 3x3 grid with every segment of the grid, enlarged so that crossings are rounded, 10 placements, every vector type",
        rule,
        np * 81 * 10,
        move |i| {
            let m = &MAPS[(i % 10) as usize];
            let c = &polys[(i / 810) as usize];
            let i = i / 10;
            let big = |p: P| m.on((7 * p.0, 7 * p.1));
            let off = |p: P| m.on((7 * p.0 + 1 - p.1, 7 * p.1 - 1 + 2 * p.0));
            (close(c).into_iter().map(big).collect::<Vec<P>>(), (off(grid(i % 9, 3)), off(grid(i / 9 % 9, 3))))
        },
        |(p, s): &(Vec<P>, Seg), st| {
            note(p, *s, st);
            for_2d!(T, n, { meets::<T>(n, p, *s, true, st) });
        },
    ));
    v.push(fam_list(
        "convex polygons of 3 to 40 corners with segments along, beyond and inside of every edge and between corners",
        rule,
        (3..=t.pick(24usize, 40)).collect(),
        |n: &usize, st| {
            let c = lattice_polygon(*n);
            for r in [0, n / 2, n - 1] {
                let p = close(&rotate(&c, r));
                for i in 0..*n {
                    let (a, b) = (p[i], p[i + 1]);
                    let d = sub(b, a);
                    let far = |k: i64| (a.0 + k * d.0, a.1 + k * d.1);
                    for s in [(a, b), (b, a), (far(-1), far(2)), (far(-1), b), (a, far(3)), (far(3), a), (far(2), far(3)), (far(-1), a), (a, a)] {
                        note(&p, s, st);
                        for_2d!(T, n, { meets::<T>(n, &p, s, true, st) });
                    }
                    for j in 0..*n {
                        note(&p, (a, p[j]), st);
                        meets::<DVec2>("DVec2", &p, (a, p[j]), true, st);
                        meets::<vector_traits::glam::Vec2>("Vec2", &p, (a, p[j]), true, st);
                    }
                }
            }
        },
    ));
    // collinear edges in thirds, sevenths, ...: overlaps with rounded ends
    let k = t.pick(9u64, 14);
    v.push(fam(
        format!("every triangle edge and segment on one line of {k} steps, in 5 directions, every vector type"),
        rule,
        k * k * k * k * 5,
        move |i| {
            let d = [(1, 0), (0, 1), (3, 7), (-7, 3), (11, -13)][(i % 5) as usize];
            let i = i / 5;
            let at = |j: u64| (j as i64 * d.0, j as i64 * d.1);
            (at(i % k), at(i / k % k), d, (at(i / k / k % k), at(i / k / k / k)))
        },
        |(a, b, d, s): &(P, P, P, Seg), st| {
            if a == b {
                return;
            }
            // a triangle with the edge a-b
            let c = (a.0 - d.1 * 2, a.1 + d.0 * 2);
            for p in [[*a, *b, c, *a], [*b, c, *a, *b], [c, *a, *b, c]] {
                note(&p, *s, st);
                for_2d!(T, n, { meets::<T>(n, &p, *s, true, st) });
            }
        },
    ));
    // flat boxes: nearly parallel segments, corners next to segments
    let flat = |i: u64| ([20, 500, 4096][(i % 3) as usize], i / 3 % 4, i / 12);
    v.push(fam(
        "every line string of 3 points and segment of 13 points in and around a flat box, 3 lengths, 4 positions in turn",
        rule,
        13u64.pow(5) * 3,
        move |i| {
            let (n, turn, _) = flat(i % 3 + 3 * (i / 3 % 4));
            let f = flat_points(n, turn);
            let p: Vec<P> = seq_decode(i / 3, 13, 5, 5).iter().map(|k| f[*k as usize]).collect();
            (p[..3].to_vec(), (p[3], p[4]), n)
        },
        |(p, s, n): &(Vec<P>, Seg, i64), st| {
            note(p, *s, st);
            meets::<DVec2>("DVec2", p, *s, false, st);
            if *n == 20 {
                meets::<vector_traits::glam::Vec2>("Vec2", p, *s, false, st);
            }
        },
    ));
    v.push(fam(
        "every ray between and line string of 3 of 13 points in and around a flat box, 3 lengths, 4 positions in turn",
        "the ray meets the line string",
        13u64.pow(5) * 3,
        move |i| {
            let (n, turn, _) = flat(i % 3 + 3 * (i / 3 % 4));
            let f = flat_points(n, turn);
            let p: Vec<P> = seq_decode(i / 3, 13, 5, 5).iter().map(|k| f[*k as usize]).collect();
            (p[0], sub(p[1], p[0]), p[2..].to_vec())
        },
        |(o, d, p): &(P, P, Vec<P>), st| {
            if *d == (0, 0) {
                return;
            }
            if ray_string::<DVec2>("DVec2", *o, *d, p, st) {
                st.nontrivial += 1;
            }
            ray_edge::<DVec2>("DVec2", *o, *d, p[0], p[1], st);
        },
    ));
    // rays
    let rrule = "the ray meets the segment or line string";
    v.push(fam(
        "every ray and segment (or point) of a 4x4 grid",
        rrule,
        16u64.pow(4),
        |i| {
            let at = |k: u64| grid(k % 16, 4);
            (at(i), sub(at(i / 16), (1, 2)), at(i / 256), at(i / 4096))
        },
        |(o, d, a, b): &(P, P, P, P), st| {
            if *d == (0, 0) {
                return;
            }
            if ray_hit(*o, *d, *a, *b).is_some() {
                st.nontrivial += 1;
            }
            for m in &MAPS {
                // directions are not moved
                let z = m.on((0, 0));
                let (o, d, a, b) = (m.on(*o), sub(m.on(*d), z), m.on(*a), m.on(*b));
                if *m == MAPS[0] || *m == MAPS[3] {
                    for_2d!(T, n, { ray_edge::<T>(n, o, d, a, b, st) });
                } else {
                    ray_edge::<DVec2>("DVec2", o, d, a, b, st);
                }
            }
        },
    ));
    v.push(fam(
        "every direction in the 3 steps around and segment (or point) of a 3x3 grid, from each of its points, where the direction is much shorter or longer than the segments, every vector type",
        rrule,
        9 * 49 * 81,
        |i| {
            let d = (i / 9 % 49) as i64;
            (grid(i % 9, 3), (d % 7 - 3, d / 7 - 3), grid(i / 441 % 9, 3), grid(i / 3969, 3))
        },
        |(o, d, a, b): &(P, P, P, P), st| {
            if *d == (0, 0) {
                return;
            }
            if ray_hit(*o, *d, *a, *b).is_some() {
                st.nontrivial += 1;
            }
            for m in &MAPS[..3] {
                let z = m.on((0, 0));
                let (o, d, a, b) = (m.on(*o), sub(m.on(*d), z), m.on(*a), m.on(*b));
                for_2d!(T, n, { ray_length::<T>(n, o, d, a, b, st) });
            }
        },
    ));
    let k = t.pick(4, 5);
    v.push(fam(
        format!("every ray from a 3x3 grid in 12 directions with every line string of up to {k} points of the grid"),
        rrule,
        seq_count(9, 0, k) * 9 * 12,
        move |i| {
            let d = [(1, 0), (0, 1), (-1, 0), (0, -1), (1, 1), (-1, 1), (2, -1), (-1, -2), (3, 2), (1, -1), (-2, -1), (-2, 4)];
            (grid(i / 12 % 9, 3), d[(i % 12) as usize], grid_seq(i / 108, 3, 3, 0, k))
        },
        |(o, d, p): &(P, P, Vec<P>), st| {
            if ray_string::<DVec2>("DVec2", *o, *d, p, st) {
                st.nontrivial += 1;
            }
            if p.len() <= 3 {
                for m in &MAPS {
                    let z = m.on((0, 0));
                    let (o, d, p) = (m.on(*o), sub(m.on(*d), z), m.all(p));
                    for_2d!(T, n, {
                        let _ = ray_string::<T>(n, o, d, &p, st);
                    });
                }
            }
        },
    ));
    let k = t.pick(3, 4);
    v.push(fam(
        format!("coordinates that are rounded: every line string of 2 to {k} points of a 3x3 grid with every segment of the grid, with 6 steps that can't be represented, in 6 directions and 3 positions"),
        rule,
        seq_count(9, 2, k) * 81 * 108,
        move |i| {
            let g = RoundedGrid::nth(i % 108);
            let i = i / 108;
            (g, grid_seq(i / 81, 3, 3, 2, k), (grid(i % 9, 3), grid(i / 9 % 9, 3)))
        },
        |(g, p, s): &(RoundedGrid, Vec<P>, Seg), st| {
            note(p, *s, st);
            meets_rounded::<DVec2>("DVec2", g, p, *s, 1e-13, false, st);
            if (g.step, g.at) != (1, 2) {
                meets_rounded::<vector_traits::glam::Vec2>("Vec2", g, p, *s, 1e-5, false, st);
            }
        },
    ));
    let polys = std::sync::Arc::new(convex_polygons(&grid_points(3, 3), 3, 9));
    let np = polys.len() as u64;
    v.push(fam(
        "coordinates that are rounded: every convex polygon of a 3x3 grid with every segment of a 4x4 grid, with 6 steps that can't be represented, in 6 directions and 3 positions",
        rule,
        np * 256 * 108,
        move |i| {
            let g = RoundedGrid::nth(i % 108);
            let i = i / 108;
            let c = &polys[(i / 256) as usize];
            let at = |k: u64| ((k % 4) as i64 - 1, (k / 4 % 4) as i64 - 1);
            (g, close(&rotate(c, (i / 7) as usize % c.len())), (at(i), at(i / 16)))
        },
        |(g, p, s): &(RoundedGrid, Vec<P>, Seg), st| {
            note(p, *s, st);
            meets_rounded::<DVec2>("DVec2", g, p, *s, 1e-13, true, st);
            if (g.step, g.at) != (1, 2) {
                meets_rounded::<vector_traits::glam::Vec2>("Vec2", g, p, *s, 1e-5, true, st);
            }
        },
    ));
    v.push(fam(
        format!("coordinates that are rounded: every line string of 2 to {k} points of a 3x3 grid with each ray in 12 directions from the grid, with 6 steps that can't be represented, in 6 directions and 3 positions"),
        rrule,
        seq_count(9, 2, k) * 108 * 108,
        move |i| {
            let g = RoundedGrid::nth(i % 108);
            let i = i / 108;
            let d = [(1, 0), (0, 1), (-1, 0), (0, -1), (1, 1), (-1, 1), (2, -1), (-1, -2), (3, 2), (1, -1), (-2, -1), (-2, 4)];
            (g, grid(i / 12 % 9, 3), d[(i % 12) as usize], grid_seq(i / 108, 3, 3, 2, k))
        },
        |(g, o, d, p): &(RoundedGrid, P, P, Vec<P>), st| {
            if ray_hit(*o, *d, p[0], p[1]).is_some() {
                st.nontrivial += 1;
            }
            ray_rounded::<DVec2>("DVec2", g, *o, *d, p, 1e-13, st);
            if (g.step, g.at) != (1, 2) {
                ray_rounded::<vector_traits::glam::Vec2>("Vec2", g, *o, *d, p, 1e-5, st);
            }
        },
    ));
    v.push(fam_list(
        "long line strings with lines and rays from, to and between their points",
        "always",
        long_lines(),
        |(_, p): &(String, Vec<P>), st| {
            let n = p.len();
            st.nontrivial += 1;
            for i in (0..n).step_by(1 + n / 20) {
                for j in (0..n).step_by(1 + n / 16) {
                    let (a, b) = (p[i], p[j]);
                    meets::<DVec2>("DVec2", p, (a, b), false, st);
                    meets::<DVec2>("DVec2", p, (a, (b.0 + 1, b.1 - 2)), false, st);
                    for d in [sub(b, a), (1, 0), (0, -1), (2, 3)] {
                        if d != (0, 0) {
                            ray_string::<DVec2>("DVec2", a, d, p, st);
                            ray_string::<DVec2>("DVec2", (a.0 - 1, a.1 + 2), d, p, st);
                        }
                    }
                }
            }
        },
    ));
    v.push(fam_list(
        "a line string of more than 65536 points, with lines and rays next to 7 of its edges and along all of it",
        "always",
        vec![0i64, 1, 32_767, 32_768, 65_535, 65_536, 69_998],
        |k: &i64, st| {
            st.nontrivial += 1;
            // a saw, so that a level line meets every edge
            let p: Vec<P> = (0..70_000).map(|x| (2 * x, x % 2 * 4)).collect();
            for s in [((2 * k + 1, -3), (2 * k + 1, 9)), ((2 * k, -1), (2 * k, 1)), ((2 * k - 1, 3), (2 * k + 1, 3)), ((-5, 2), (200_000, 2)), ((200_000, 1), (2 * k + 1, 1))] {
                meets::<DVec2>("DVec2", &p, s, false, st);
                tick();
            }
            for (o, d) in [((2 * k + 1, -5), (0, 1)), ((2 * k + 1, 9), (0, -2)), ((2 * k + 1, 9), (1, -3)), ((-7, 3), (1, 0)), ((150_000, 1), (-3, 0))] {
                ray_string::<DVec2>("DVec2", o, d, &p, st);
            }
        },
    ));
    v
}

// ------------------------------------------------------------------ C20

/// `m`: the largest coordinate, which the distance may be off by a few rounding errors of
fn near(g: f64, w: (i64, i64), rel: f64, m: i64) -> bool {
    let w = w.0 as f64 / w.1 as f64;
    let off = rel / 16.0 * m as f64;
    (g - w).abs() <= rel * w.max(1.0) + 2.0 * off * w.sqrt() + off * off
}
fn dist2<T: GenericVector2>(n: &str, a: P, b: P, p: P, st: &mut Local) {
    let z = |p: P| (p.0, p.1, 0);
    let want = seg_dist(z(a), z(b), z(p));
    let (l0, l1, q): (T, T, T) = (m2(a), m2(b), m2(p));
    let rel = tol::<T::Scalar>(1);
    let m = max_abs(&[a, b, p]);
    st.calls += 1;
    let g = unlen2(linestring_2d::distance_to_line_squared_safe(l0, l1, q));
    ensure!(
        st,
        near(g, want, rel, m),
        "{n}: squared distance of {p:?} to {a:?}-{b:?} is {g}, expected {want:?}"
    );
    if a != b {
        st.calls += 1;
        let g = unlen2(linestring_2d::distance_to_line_squared(l0, l1, q));
        ensure!(st, near(g, want, rel, m), "{n}: squared distance (unsafe version) of {p:?} to {a:?}-{b:?} is {g}, expected {want:?}");
    }
}
fn dist3<T: GenericVector3>(n: &str, a: P3, b: P3, p: P3, st: &mut Local) {
    let want = seg_dist(a, b, p);
    let (l0, l1, q): (T, T, T) = (m3(a), m3(b), m3(p));
    let rel = tol::<T::Scalar>(1);
    let m = [a, b, p].iter().map(|p| p.0.abs().max(p.1.abs()).max(p.2.abs())).max().unwrap_or(0);
    st.calls += 1;
    let g = unlen2(linestring_3d::distance_to_line_squared_safe(l0, l1, q));
    ensure!(
        st,
        near(g, want, rel, m),
        "{n}: squared distance of {p:?} to {a:?}-{b:?} is {g}, expected {want:?}"
    );
    if a != b {
        st.calls += 1;
        let g = unlen2(linestring_3d::distance_to_line_squared(l0, l1, q));
        ensure!(st, near(g, want, rel, m), "{n}: squared distance (unsafe version) of {p:?} to {a:?}-{b:?} is {g}, expected {want:?}");
    }
}

fn c20(t: Tier) -> Vec<Box<dyn Family>> {
    let mut v: Vec<Box<dyn Family>> = Vec::new();
    let rule = "the segment is not a point and the point is not on it";
    let w = t.pick(5u64, 7);
    let n = w * w;
    v.push(fam(
        format!("every segment (or point) and point of a {w}x{w} grid, 12 placements, every vector type"),
        rule,
        n * n * n,
        move |i| (grid(i % n, w), grid(i / n % n, w), grid(i / n / n, w)),
        |(a, b, p): &(P, P, P), st| {
            if a != b && !on_segment(*a, *b, *p) {
                st.nontrivial += 1;
            }
            st.state(&seg_dist((a.0, a.1, 0), (b.0, b.1, 0), (p.0, p.1, 0)));
            for m in &FAR_MAPS {
                for_2d!(T, n, { dist2::<T>(n, m.on(*a), m.on(*b), m.on(*p), st) });
            }
        },
    ));
    let w = t.pick(3u64, 4);
    let n = w * w * w;
    v.push(fam(
        format!("every segment (or point) and point of a {w}x{w}x{w} grid in {} placements, every vector type", MAPS3.len()),
        rule,
        n * n * n,
        move |i| {
            let at = |k: u64| ((k % w) as i64, (k / w % w) as i64, (k / w / w) as i64);
            (at(i % n), at(i / n % n), at(i / n / n))
        },
        |(a, b, p): &(P3, P3, P3), st| {
            let d = seg_dist(*a, *b, *p);
            if a != b && d.0 != 0 {
                st.nontrivial += 1;
            }
            st.state(&d);
            for m in &MAPS3 {
                for_3d!(T, n, { dist3::<T>(n, map3(m, *a), map3(m, *b), map3(m, *p), st) });
            }
        },
    ));
    v.push(fam(
        "every segment and point of 13 points in and around a flat box, 3 lengths, 4 positions, in the plane and in space",
        rule,
        13u64.pow(3) * 12,
        |i| {
            let n = [20, 500, 4096][(i % 3) as usize];
            let f = flat_points(n, i / 3 % 4);
            let p: Vec<P> = seq_decode(i / 12, 13, 3, 3).iter().map(|k| f[*k as usize]).collect();
            (p, n)
        },
        |(p, n): &(Vec<P>, i64), st| {
            if p[0] != p[1] && !on_segment(p[0], p[1], p[2]) {
                st.nontrivial += 1;
            }
            st.state(&(p, n));
            let up: [fn(P) -> P3; 4] = [|p| (p.0, p.1, 5), |p| (p.0, -2, p.1), |p| (3, p.0, p.1), |p| (p.0, p.1, p.0 + p.1)];
            let q = |k: usize| -> Vec<P3> { p.iter().map(|p| up[k](*p)).collect() };
            if *n == 20 {
                for_2d!(T, n, { dist2::<T>(n, p[0], p[1], p[2], st) });
            } else {
                dist2::<DVec2>("DVec2", p[0], p[1], p[2], st);
            }
            for k in 0..4 {
                let q = q(k);
                dist3::<vector_traits::glam::DVec3>("DVec3", q[0], q[1], q[2], st);
                dist3::<vector_traits::cgmath::Vector3<f64>>("cgmath f64", q[1], q[0], q[2], st);
            }
        },
    ));
    // a segment that is much shorter than its distance to the point, down to one whose squared length
    // is zero in the scalar type
    const SHORT: [i32; 24] = [
        1, 2, 4, 8, 12, 16, 20, 22, 23, 24, 26, 30, 40, 51, 52, 53, 60, 75, 100, 140, 300, 500, 540, 1000,
    ];
    v.push(fam(
        "points of a 5x5x3 grid and segments from the origin that are shorter by 24 powers of two, in both directions, every vector type",
        "the point is not the origin",
        75 * 26 * SHORT.len() as u64 * 2,
        |i| {
            let (e, i) = (SHORT[i as usize % SHORT.len()], i / SHORT.len() as u64);
            let (turn, i) = (i % 2 == 1, i / 2);
            // 26 directions
            let d = if i % 26 < 13 { i % 26 } else { i % 26 + 1 };
            let d = (d as i64 % 3 - 1, d as i64 / 3 % 3 - 1, d as i64 / 9 - 1);
            let q = i as i64 / 26;
            ((q % 5 - 2, q / 5 % 5 - 2, q / 25 - 1), d, e, turn)
        },
        |(q, d, e, turn): &(P3, P3, i32, bool), st| {
            if *q != (0, 0, 0) {
                st.nontrivial += 1;
            }
            let k = 2f64.powi(-e);
            let end = (d.0 as f64 * k, d.1 as f64 * k, d.2 as f64 * k);
            let dot = |a: (f64, f64, f64), b: (f64, f64, f64)| a.0 * b.0 + a.1 * b.1 + a.2 * b.2;
            // the nearest point of the segment; its exact position matters less than rounding when it is short
            let near = |q: (f64, f64, f64), d: (f64, f64, f64)| {
                let u = (dot(q, d) / dot(d, d) / k).clamp(0.0, 1.0) * k;
                let r = (q.0 - d.0 * u, q.1 - d.1 * u, q.2 - d.2 * u);
                dot(r, r)
            };
            let (q, d) = ((q.0 as f64, q.1 as f64, q.2 as f64), (d.0 as f64, d.1 as f64, d.2 as f64));
            for_3d!(T, n, {
                st.calls += 1;
                let (o, x): (T, T) = (v3(0.0, 0.0, 0.0), v3(end.0, end.1, end.2));
                let (a, b) = if *turn { (x, o) } else { (o, x) };
                let g = f(linestring_3d::distance_to_line_squared_safe(a, b, v3(q.0, q.1, q.2)));
                let w = near(q, d);
                ensure!(st, (g - w).abs() <= tol::<<T as vector_traits::HasXY>::Scalar>(9), "{n}: squared distance of {q:?} to a segment of length {end:?} from the origin is {g}, expected {w}");
            });
            if d.2 == 0.0 && q.2 == 0.0 {
                for_2d!(T, n, {
                    st.calls += 1;
                    let (o, x): (T, T) = (v2(0.0, 0.0), v2(end.0, end.1));
                    let (a, b) = if *turn { (x, o) } else { (o, x) };
                    let g = f(linestring_2d::distance_to_line_squared_safe(a, b, v2(q.0, q.1)));
                    let w = near(q, d);
                    ensure!(st, (g - w).abs() <= tol::<<T as vector_traits::HasXY>::Scalar>(9), "{n}: squared distance of {q:?} to a segment of length {end:?} from the origin is {g}, expected {w}");
                });
            }
        },
    ));
    v.push(fam(
        "a point moved along a vector by every multiple from -4 to 4 in quarters, every vector type",
        "the vector is not zero",
        25 * 25 * 33,
        |i| (grid(i % 25, 5), sub(grid(i / 25 % 25, 5), (2, 2)), (i / 625) as i64 - 16),
        |(p, d, k): &(P, P, i64), st| {
            if *d != (0, 0) {
                st.nontrivial += 1;
            }
            let k = *k as f64 / 4.0;
            for_2d!(T, n, {
                st.calls += 1;
                let g = un2(linestring_2d::scale_to_coordinate::<T>(m2(*p), m2(*d), sc(k)));
                let w = (p.0 as f64 + d.0 as f64 * k, p.1 as f64 + d.1 as f64 * k);
                ensure!(st, g == w, "{n}: {p:?} + {k} * {d:?} = {g:?}");
            });
        },
    ));
    v
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C17",
            families: |t| with_digits(with_zeros(with_scales(c17, t, &["up to 3 points", "rays", "every ray and segment", "every ray from"], &CROSS_SCALES), c17, &["up to 3 points", "rays", "every ray and segment", "every ray from"]), c17, &["up to 3 points", "rays", "every ray and segment", "every ray from"]),
            bounds: "all line strings of up to 4 (thorough 5) points of a 3x3 grid with all segments, up to 3 under 10 placements and all vector types; all convex polygons of a 3x3 (4x4) grid from every corner with all segments in and around the grid, regular ones up to 24 (40) corners; all rays and segments of a 4x4 grid, all rays in 12 directions with all line strings of up to 4 (5) points; long line strings up to 150 points, one of 70000",
            assumptions: &["the direction of a ray is not zero", "the search for two intersections is only required to be complete for convex polygons"],
        },
        Prop {
            id: "C20",
            families: |t| with_digits(with_zeros(with_scales(c20, t, &["of a 3x3x3 grid", "of a 5x5 grid"], &AREA_SCALES), c20, &["of a 3x3x3 grid", "of a 5x5 grid"]), c20, &["of a 3x3x3 grid", "of a 5x5 grid"]),
            bounds: "all segments and points of a 5x5 (thorough 7x7) grid under 12 placements, near to and far from the origin, and of a 3x3x3 (4x4x4) grid under all placements in space, every vector type",
            assumptions: &["results are compared with the exact ones within a tolerance of the scalar type; fourth powers of lengths are in its range"],
        },
    ]
}
