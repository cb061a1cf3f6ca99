//! C05 segment intersection, C06 sweep-line over segments, C07 sweep-line over indexed edges.
use crate::fw::*;
use crate::geo::*;
use crate::{ensure, for_2d};
use linestring::linestring_2d::indexed_intersection::IntersectionTester;
use linestring::linestring_2d::intersection::IntersectionData;
use linestring::linestring_2d::{intersect_line_point, Intersection, Line2, LineString2};
use vector_traits::glam::{DVec2, Vec2};
use vector_traits::GenericVector2;

pub type Seg = (P, P);

// ------------------------------------------------------------------ C05

pub fn line<T: GenericVector2>(s: Seg) -> Line2<T> {
    Line2::new(m2(s.0), m2(s.1))
}

pub fn judge<T: GenericVector2>(r: &Option<Intersection<T>>, want: Common, tol: f64) -> bool {
    match (r, want) {
        (None, Common::Nothing) => true,
        (Some(Intersection::Intersection(p)), Common::Point(x, y, n)) => {
            let (a, b) = un2(*p);
            is_at(a, b, (x, y, n), tol)
        }
        (Some(Intersection::Overlap(l)), Common::Overlap(lo, hi)) => {
            let (s, e) = (un2(l.start), un2(l.end));
            let at = |p: (f64, f64), q: P| is_at(p.0, p.1, (q.0, q.1, 1), tol);
            (at(s, lo) && at(e, hi)) || (at(s, hi) && at(e, lo))
        }
        _ => false,
    }
}

fn c05_case<T: GenericVector2>(n: &str, a: Seg, b: Seg, st: &mut Local) {
    let want = common(a.0, a.1, b.0, b.1);
    let t = tol::<T::Scalar>(max_abs(&[a.0, a.1, b.0, b.1]));
    for (x, y) in [(a, b), (b, a), ((a.1, a.0), b), (a, (b.1, b.0)), ((a.1, a.0), (b.1, b.0)), ((b.1, b.0), a)] {
        st.calls += 1;
        let r = line::<T>(x).intersection_point(line::<T>(y));
        if !judge(&r, want, t) {
            st.fail(format!("{n}: {x:?} with {y:?} gives {r:?}, they share {want:?}"));
            return;
        }
        if let Some(r) = &r {
            // the two ways of asking for one point of the result
            let (s, lo_hi) = (un2(r.single()), match want {
                Common::Overlap(lo, hi) => vec![(lo.0, lo.1, 1), (hi.0, hi.1, 1)],
                Common::Point(x, y, n) => vec![(x, y, n)],
                Common::Nothing => vec![],
            });
            st.calls += 1;
            ensure!(st, lo_hi.iter().any(|p| is_at(s.0, s.1, *p, t)), "{n}: single() of {r:?} is {s:?}");
            for q in [a.0, a.1, b.0, b.1, (7, -3)] {
                st.calls += 1;
                let c = un2(r.closest(m2(q)));
                let d = |p: &(i64, i64, i64)| {
                    let (x, y) = (p.0 as f64 / p.2 as f64 - q.0 as f64, p.1 as f64 / p.2 as f64 - q.1 as f64);
                    x * x + y * y
                };
                let best = lo_hi.iter().map(d).fold(f64::INFINITY, f64::min);
                ensure!(st, lo_hi.iter().any(|p| is_at(c.0, c.1, *p, t) && d(p) <= best + 1e-3), "{n}: closest({q:?}) of {r:?} is {c:?}");
            }
        }
    }
}

fn c05_point<T: GenericVector2>(n: &str, a: Seg, p: P, st: &mut Local) {
    let on = on_segment(a.0, a.1, p);
    for l in [a, (a.1, a.0)] {
        st.calls += 1;
        match intersect_line_point(line::<T>(l), m2::<T>(p)) {
            None => ensure!(st, !on, "{n}: {p:?} is on {l:?}"),
            Some(r) => ensure!(st, on && int2(r.single()) == Some(p), "{n}: {p:?} on {l:?}: {r:?}"),
        }
    }
}

fn kind(c: Common, st: &mut Local) {
    st.tag(match c {
        Common::Nothing => "disjoint",
        Common::Point(..) => "one common point",
        Common::Overlap(..) => "overlap",
    });
}

/// A point on the segment, or farther away from its line than 16 roundings of the largest coordinate of an f32
fn beside(a: P, b: P, p: P) -> bool {
    let (r, q) = (sub(b, a), sub(p, a));
    let cross = (r.0 * q.1 - r.1 * q.0).abs() as f64;
    let largest = [a.0, a.1, b.0, b.1].iter().map(|c| c.abs()).max().unwrap_or(0) as f64;
    cross == 0.0 || cross / ((r.0 * r.0 + r.1 * r.1) as f64).sqrt() > 16.0 * f64::from(f32::EPSILON) * largest
}

fn c05(t: Tier) -> Vec<Box<dyn Family>> {
    let mut v: Vec<Box<dyn Family>> = Vec::new();
    let rule = "the segments have something in common";
    let run = |(a, b): &(Seg, Seg), st: &mut Local| {
        let want = common(a.0, a.1, b.0, b.1);
        st.state(&want);
        kind(want, st);
        if want != Common::Nothing {
            st.nontrivial += 1;
        }
        for_2d!(T, n, { c05_case::<T>(n, *a, *b, st) });
    };
    v.push(fam_list("a crossing with a cross product below the epsilon of the scalar type", "always", vec![0], |_: &i32, st| {
        st.nontrivial += 1;
        for_2d!(T, n, {
            let s = if std::mem::size_of::<<T as vector_traits::HasXY>::Scalar>() == 4 { 2f64.powi(-13) } else { 2f64.powi(-27) };
            let (a, b) = (Line2::<T>::new(v2(0.0, 0.0), v2(s, s)), Line2::<T>::new(v2(0.0, s), v2(s, 0.0)));
            st.calls += 1;
            match a.intersection_point(b) {
                Some(Intersection::Intersection(p)) => ensure!(st, un2(p) == (s / 2.0, s / 2.0), "{n}: {a:?} meets {b:?} in {p:?}"),
                // (the cross product counts as zero: they are parallel then, on one line)
                Some(Intersection::Overlap(o)) => {
                    st.fail_key("intersection_point/tiny-crossing-is-parallel", format!("{n}: the overlap of {a:?} and {b:?} is {o:?}"))
                }
                None => st.fail(format!("{n}: {a:?} and {b:?} don't meet")),
            }
        });
    }));
    v.push(fam(
        "every pair of segments (points included) on a 4x4 grid",
        rule,
        1 << 16,
        |i| {
            let p: Vec<P> = seq_decode(i, 16, 4, 4).iter().map(|k| grid(*k, 4)).collect();
            ((p[0], p[1]), (p[2], p[3]))
        },
        run,
    ));
    let nm = FAR_MAPS.len() as u64;
    v.push(fam(
        "every pair of segments on a 3x3 grid under all placements",
        rule,
        6561 * nm,
        move |i| {
            let p: Vec<P> = FAR_MAPS[(i % nm) as usize].all(&grid_seq(i / nm, 3, 3, 4, 4));
            ((p[0], p[1]), (p[2], p[3]))
        },
        run,
    ));
    v.push(fam(
        "every pair of segments between 13 points in and around a flat box, 4 lengths up to 65536, 4 positions",
        rule,
        13u64.pow(4) * 16,
        |i| {
            let n = [20, 500, 4096, 65536][(i % 4) as usize];
            let f = flat_points(n, i / 4 % 4);
            let p: Vec<P> = seq_decode(i / 16, 13, 4, 4).iter().map(|k| f[*k as usize]).collect();
            ((p[0], p[1]), (p[2], p[3]), n)
        },
        |(a, b, n): &(Seg, Seg, i64), st| {
            let want = common(a.0, a.1, b.0, b.1);
            st.state(&want);
            kind(want, st);
            if want != Common::Nothing {
                st.nontrivial += 1;
            }
            // (a point closer to a segment than a rounded point may be: see the limits)
            let clear = if a.0 == a.1 { beside(b.0, b.1, a.0) } else if b.0 == b.1 { beside(a.0, a.1, b.0) } else { true };
            if *n <= 500 || clear && (a.0 == a.1 || b.0 == b.1) {
                for_2d!(T, n, { c05_case::<T>(n, *a, *b, st) });
            } else {
                c05_case::<DVec2>("DVec2", *a, *b, st);
                c05_case::<vector_traits::cgmath::Vector2<f64>>("cgmath f64", *a, *b, st);
            }
        },
    ));
    v.push(fam(
        "every segment and point of 13 points in and around a flat box, 5 lengths up to 262144, 4 positions",
        "the point is on the segment",
        13u64.pow(3) * 20,
        |i| {
            let n = [20, 500, 4096, 65536, 262144][(i % 5) as usize];
            let f = flat_points(n, i / 5 % 4);
            let p: Vec<P> = seq_decode(i / 20, 13, 3, 3).iter().map(|k| f[*k as usize]).collect();
            (p, n)
        },
        |(p, n): &(Vec<P>, i64), st| {
            if on_segment(p[0], p[1], p[2]) {
                st.nontrivial += 1;
            }
            st.state(&(p, n));
            if beside(p[0], p[1], p[2]) {
                for_2d!(T, n, { c05_point::<T>(n, (p[0], p[1]), p[2], st) });
            } else {
                c05_point::<DVec2>("DVec2", (p[0], p[1]), p[2], st);
                c05_point::<vector_traits::cgmath::Vector2<f64>>("cgmath f64", (p[0], p[1]), p[2], st);
            }
        },
    ));
    let side = t.pick(5u64, 7);
    v.push(fam(
        format!("every pair of segments on a {side}x{side} grid, f64 only"),
        rule,
        side.pow(8),
        move |i| {
            let p: Vec<P> = grid_seq(i, side, side, 4, 4);
            ((p[0], p[1]), (p[2], p[3]))
        },
        |(a, b): &(Seg, Seg), st| {
            let want = common(a.0, a.1, b.0, b.1);
            st.state(&want);
            if want != Common::Nothing {
                st.nontrivial += 1;
            }
            let t = tol::<f64>(8);
            st.calls += 1;
            let r = line::<DVec2>(*a).intersection_point(line(*b));
            ensure!(st, judge(&r, want, t), "{a:?} with {b:?} gives {r:?}, they share {want:?}");
        },
    ));
    v.push(fam(
        "every segment and point on a 5x5 grid under all placements",
        "the point is on the segment",
        15625 * nm,
        move |i| FAR_MAPS[(i % nm) as usize].all(&grid_seq(i / nm, 5, 5, 3, 3)),
        |p: &Vec<P>, st| {
            if on_segment(p[0], p[1], p[2]) {
                st.nontrivial += 1;
            }
            st.state(&(cross(p[0], p[1], p[2]), on_segment(p[0], p[1], p[2])));
            for_2d!(T, n, { c05_point::<T>(n, (p[0], p[1]), p[2], st) });
        },
    ));
    v.push(fam(
        "coordinates that are rounded: every pair of segments on a 3x3 grid with 6 steps that can't be represented, in 6 directions and 3 positions",
        rule,
        6561 * 108,
        |i| {
            let p = grid_seq(i / 108, 3, 3, 4, 4);
            (RoundedGrid::nth(i % 108), (p[0], p[1]), (p[2], p[3]))
        },
        |(g, a, b): &(RoundedGrid, Seg, Seg), st| {
            let want = common(a.0, a.1, b.0, b.1);
            kind(want, st);
            if want != Common::Nothing {
                st.nontrivial += 1;
            }
            c05_rounded::<DVec2>("DVec2", g, *a, *b, 1e-10, st);
            c05_rounded::<Vec2>("Vec2", g, *a, *b, 2e-2, st);
        },
    ));
    v
}

/// Where the answer does not depend on rounding it has to be right, and what is reported has to be there.
pub fn rounded_ok<T: GenericVector2>(g: &RoundedGrid, a: Seg, b: Seg, r: &Option<Intersection<T>>, tol: f64) -> bool {
    let on = |p: P| un2::<T>(rounded_at(g, p));
    let at = |p: (f64, f64)| {
        un2::<T>({
            let (o, x, y) = (g.on((0, 0)), g.on((1, 0)), g.on((0, 1)));
            v2(o.0 + (x.0 - o.0) * p.0 + (y.0 - o.0) * p.1, o.1 + (x.1 - o.1) * p.0 + (y.1 - o.1) * p.1)
        })
    };
    let unit = g.unit();
    let near = |p: (f64, f64), q: (f64, f64)| (p.0 - q.0).abs() <= tol * unit && (p.1 - q.1).abs() <= tol * unit;
    let ends = [a.0, a.1, b.0, b.1];
    match (common(a.0, a.1, b.0, b.1), r) {
        (Common::Nothing, r) => r.is_none(),
        (Common::Point(px, py, d), r) => {
            let clear = !ends.contains(&(px / d, py / d)) || d != 1;
            // an end of both, or a point that is the end
            let shared = d == 1 && [a.0, a.1].contains(&(px, py)) && [b.0, b.1].contains(&(px, py));
            match r {
                None => !clear && !shared,
                Some(Intersection::Intersection(p)) => near(un2(*p), at((px as f64 / d as f64, py as f64 / d as f64))),
                Some(Intersection::Overlap(_)) => false,
            }
        }
        (Common::Overlap(lo, hi), r) => {
            let (lo, hi) = (on(lo), on(hi));
            let same = a == b || a == (b.1, b.0);
            match r {
                None => !same,
                Some(Intersection::Intersection(p)) => {
                    let p = un2(*p);
                    let (dx, dy) = (hi.0 - lo.0, hi.1 - lo.1);
                    let k = (((p.0 - lo.0) * dx + (p.1 - lo.1) * dy) / (dx * dx + dy * dy)).clamp(0.0, 1.0);
                    !same && near(p, (lo.0 + k * dx, lo.1 + k * dy))
                }
                Some(Intersection::Overlap(l)) => {
                    let (s, e) = (un2(l.start), un2(l.end));
                    (near(s, lo) && near(e, hi)) || (near(s, hi) && near(e, lo))
                }
            }
        }
    }
}
pub fn rounded_at<T: GenericVector2>(g: &RoundedGrid, p: P) -> T {
    let p = g.on(p);
    v2(p.0, p.1)
}

fn c05_rounded<T: GenericVector2>(n: &str, g: &RoundedGrid, a: Seg, b: Seg, tol: f64, st: &mut Local) {
    let on = |p: P| rounded_at::<T>(g, p);
    for (x, y) in [(a, b), (b, a), ((a.1, a.0), b), (a, (b.1, b.0)), ((a.1, a.0), (b.1, b.0)), ((b.1, b.0), a)] {
        st.calls += 1;
        let r = Line2 { start: on(x.0), end: on(x.1) }.intersection_point(Line2 { start: on(y.0), end: on(y.1) });
        ensure!(
            st,
            rounded_ok(g, x, y, &r, tol),
            "{n}: {:?} with {:?} gives {r:?}, on the grid they share {:?}",
            (on(x.0), on(x.1)),
            (on(y.0), on(y.1)),
            common(a.0, a.1, b.0, b.1)
        );
    }
}

// ------------------------------------------------------------------ C06 and C07

#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Mode {
    pub ignore: bool,
    pub first: bool,
}

/// one reported place and the segments reported for it
pub type Report = Vec<((f64, f64), Vec<usize>)>;

fn sweep<T: GenericVector2>(s: &[Seg], m: Mode, seed: u64) -> Result<Report, String> {
    sweep_lines::<T>(&s.iter().map(|l| line(*l)).collect::<Vec<_>>(), m, seed)
}
fn sweep_lines<T: GenericVector2>(s: &[Line2<T>], m: Mode, seed: u64) -> Result<Report, String> {
    ahash::mc_set_seed(seed);
    let r = IntersectionData::<T>::default()
        .with_ignore_end_point_intersections(m.ignore)
        .and_then(|x| x.with_stop_at_first_intersection(m.first))
        .and_then(|x| x.with_lines(s.iter().copied()))
        .and_then(|x| x.compute())
        .map(|r| r.map(|(p, l)| (un2(p), l)).collect());
    ahash::mc_set_seed(0);
    r.map_err(|e| format!("{e:?}"))
}

/// the same with a vertex table; also checks that the table only grows
fn sweep_indexed<T: GenericVector2>(v: &[P], e: &[(usize, usize)], m: Mode, seed: u64) -> Result<Report, String> {
    sweep_edges::<T>(ms2(v), e, m, seed)
}
fn sweep_edges<T: GenericVector2>(v: Vec<T>, e: &[(usize, usize)], m: Mode, seed: u64) -> Result<Report, String> {
    ahash::mc_set_seed(seed);
    let r = IntersectionTester::<T>::new(v.clone())
        .with_ignore_end_point_intersections(m.ignore)
        .and_then(|x| x.with_stop_at_first_intersection(m.first))
        .and_then(|x| x.with_edges(e.iter()))
        .and_then(|x| x.compute());
    ahash::mc_set_seed(0);
    let (verts, it) = r.map_err(|e| format!("{e:?}"))?;
    if verts.len() < v.len() || verts[..v.len()] != v {
        return Err(format!("the vertex table {verts:?} does not start with the given vertices"));
    }
    let mut out = Vec::new();
    for (i, l) in it {
        if i >= verts.len() {
            return Err(format!("vertex index {i} is out of range"));
        }
        out.push((un2(verts[i]), l));
    }
    Ok(out)
}

/// 40000 pairs of segments above each other: all of them cross, or only some
/// handed over in several batches
pub fn many_pairs(w: Which, k: usize, cuts: &[usize], st: &mut Local) {
    const N: i64 = 40_000;
    let all = k < 4;
    let crossing = |i: i64| all || [0, 1, 255, 256, 32_767, 32_768, 39_998, 39_999].contains(&i);
    let mut s: Vec<(i64, Seg)> = Vec::new();
    for i in 0..N {
        s.push((i, ((0, 4 * i), (10, 4 * i + 2))));
    }
    for i in 0..N {
        let down = if crossing(i) { ((0, 4 * i + 2), (10, 4 * i)) } else { ((20, 4 * i + 2), (30, 4 * i)) };
        s.push((i, down));
    }
    match k % 4 {
        0 => {}
        1 => s.reverse(),
        2 => s.sort_by_key(|s| s.0),
        _ => s.sort_by_key(|s| (s.0 * 7919) % N),
    }
    let mut of: Vec<Vec<usize>> = vec![Vec::new(); N as usize];
    for (j, (i, _)) in s.iter().enumerate() {
        if crossing(*i) {
            of[*i as usize].push(j);
        }
    }
    let want: Vec<((f64, f64), Vec<usize>)> = of.into_iter().enumerate().filter(|o| !o.1.is_empty()).map(|(i, l)| ((5.0, 4.0 * i as f64 + 1.0), l)).collect();
    st.nontrivial += 1;
    let at = |cuts: &[usize], n: usize| [&[0], cuts, &[n]].concat();
    for ignore in [false, true] {
        for first in [false, true] {
            let m = Mode { ignore, first };
            st.calls += 1;
            let r = match w {
                Which::Lines => {
                    let l: Vec<Line2<DVec2>> = s.iter().map(|(_, s)| Line2 { start: m2(s.0), end: m2(s.1) }).collect();
                    let mut x = IntersectionData::default().with_ignore_end_point_intersections(m.ignore).and_then(|x| x.with_stop_at_first_intersection(m.first));
                    for b in at(cuts, s.len()).windows(2) {
                        x = x.and_then(|x| x.with_lines(l[b[0]..b[1]].iter().copied()));
                    }
                    x.and_then(|x| x.compute()).map(|r| r.map(|(p, l)| (un2(p), l)).collect::<Report>()).map_err(|e| format!("{e:?}"))
                }
                Which::Indexed => {
                    let mut v: Vec<P> = s.iter().map(|(_, s)| s.0).collect();
                    v.extend(s.iter().map(|(_, s)| s.1));
                    let n = s.len();
                    let e: Vec<(usize, usize)> = (0..n).map(|i| (i, i + n)).collect();
                    let mut x = IntersectionTester::<DVec2>::new(ms2(&v)).with_ignore_end_point_intersections(m.ignore).and_then(|x| x.with_stop_at_first_intersection(m.first));
                    for b in at(cuts, n).windows(2) {
                        x = x.and_then(|x| x.with_edges(e[b[0]..b[1]].iter()));
                    }
                    x.and_then(|x| x.compute()).map(|(v, r)| r.map(|(i, l)| (un2(v[i]), l.to_vec())).collect::<Report>()).map_err(|e| format!("{e:?}"))
                }
            };
            let mut r = match r {
                Ok(r) => r,
                Err(e) => {
                    st.fail(format!("{} segments in order {k}, {m:?}: {}", s.len(), e.chars().take(300).collect::<String>()));
                    return;
                }
            };
            for x in &mut r {
                x.1.sort();
            }
            r.sort_by(|a, b| a.0 .1.total_cmp(&b.0 .1));
            st.state(&(k, r.len()));
            let ok = |x: &((f64, f64), Vec<usize>), y: &((f64, f64), Vec<usize>)| (x.0 .0 - y.0 .0).abs() < 1e-6 && (x.0 .1 - y.0 .1).abs() < 1e-6 && x.1 == y.1;
            if first {
                ensure!(st, r.len() == 1 && want.iter().any(|w| ok(&r[0], w)), "{} segments in order {k}, {m:?}: one crossing expected, got {} {:?}", s.len(), r.len(), r.first());
            } else {
                let odd = r.iter().zip(&want).find(|(a, b)| !ok(a, b));
                ensure!(st, r.len() == want.len() && odd.is_none(), "{} segments in order {k}, {m:?}: {} crossings expected, got {}; {odd:?}", s.len(), want.len(), r.len());
            }
        }
    }
}

/// Everything that must be true of a report, given the exact geometry of the segments.
pub fn report_verdict(s: &[Seg], r: &Report, m: Mode, t: f64) -> Result<(), String> {
    // soundness: distinct places, at least two segments at each, and all of them pass through it
    for (k, (p, l)) in r.iter().enumerate() {
        let mut d = l.clone();
        d.sort();
        d.dedup();
        if d.len() < 2 {
            return Err(format!("{p:?} is reported for {l:?}, which is not two segments"));
        }
        if d.len() != l.len() {
            return Err(format!("{p:?} is reported for {l:?}, where a segment is named twice"));
        }
        for i in &d {
            if *i >= s.len() {
                return Err(format!("segment index {i} is out of range"));
            }
            if !near_segment(s[*i], *p, t) {
                return Err(format!("{p:?} is reported for segment {i}, which does not pass through it"));
            }
        }
        for (q, _) in &r[..k] {
            if (q.0 - p.0).abs() <= t && (q.1 - p.1).abs() <= t {
                return Err(format!("{p:?} is reported twice"));
            }
        }
        if m.ignore {
            // a place where segments only meet with their ends is no intersection in this mode
            let end = |i: &usize| at_end(s[*i], *p, t);
            let same = |i: usize, j: usize| s[i] == s[j] || s[i] == (s[j].1, s[j].0);
            let twice = (0..d.len()).any(|i| (0..i).any(|j| same(d[i], d[j]) && s[d[i]].0 != s[d[i]].1));
            if d.iter().all(end) && !twice {
                return Err(format!("{p:?} is only a meeting of end points of {d:?}"));
            }
        }
    }
    // completeness
    let mut any = false;
    for i in 0..s.len() {
        for j in 0..i {
            match common(s[i].0, s[i].1, s[j].0, s[j].1) {
                Common::Nothing => {}
                Common::Point(x, y, n) => {
                    let p = (x as f64 / n as f64, y as f64 / n as f64);
                    if m.ignore && at_end(s[i], p, t) && at_end(s[j], p, t) {
                        continue;
                    }
                    any = true;
                    if !m.first && !r.iter().any(|(q, l)| is_at(q.0, q.1, (x, y, n), t) && l.contains(&i) && l.contains(&j)) {
                        return Err(format!("segments {j} and {i} share {p:?}, which is not reported"));
                    }
                }
                Common::Overlap(lo, hi) => {
                    any = true;
                    if !m.first
                        && !r.iter().any(|(q, l)| near_segment((lo, hi), *q, t) && l.contains(&i) && l.contains(&j))
                    {
                        return Err(format!("segments {j} and {i} overlap from {lo:?} to {hi:?}, which is not reported"));
                    }
                }
            }
        }
    }
    if m.first {
        if any && r.is_empty() {
            return Err("there are intersections, but none is reported".into());
        }
        if r.len() > 1 {
            return Err(format!("asked for the first intersection, got {r:?}"));
        }
    }
    Ok(())
}

fn at_end(s: Seg, p: (f64, f64), t: f64) -> bool {
    is_at(p.0, p.1, (s.0 .0, s.0 .1, 1), t) || is_at(p.0, p.1, (s.1 .0, s.1 .1, 1), t)
}

fn near_segment(s: Seg, p: (f64, f64), t: f64) -> bool {
    let (a, b) = ((s.0 .0 as f64, s.0 .1 as f64), (s.1 .0 as f64, s.1 .1 as f64));
    let (dx, dy) = (b.0 - a.0, b.1 - a.1);
    let l2 = dx * dx + dy * dy;
    let k = if l2 == 0.0 { 0.0 } else { (((p.0 - a.0) * dx + (p.1 - a.1) * dy) / l2).clamp(0.0, 1.0) };
    let (x, y) = (a.0 + k * dx - p.0, a.1 + k * dy - p.1);
    (x * x + y * y).sqrt() <= t * 4.0
}

const MODES: [Mode; 4] = [
    Mode { ignore: false, first: false },
    Mode { ignore: true, first: false },
    Mode { ignore: true, first: true },
    Mode { ignore: false, first: true },
];

fn c06_case<T: GenericVector2>(n: &str, s: &[Seg], seeds: u64, st: &mut Local) {
    let all: Vec<P> = s.iter().flat_map(|l| [l.0, l.1]).collect();
    let t = tol::<T::Scalar>(max_abs(&all)) * 16.0;
    for m in MODES {
        for seed in 0..seeds {
            st.calls += 1;
            match sweep::<T>(s, m, seed) {
                Err(e) => st.fail(format!("{n} {m:?} seed {seed}: {e}")),
                Ok(r) => {
                    if let Err(e) = report_verdict(s, &r, m, t) {
                        st.fail(format!("{n} {m:?} seed {seed}: {e}; reported {r:?}"))
                    }
                }
            }
        }
    }
}

fn has_pair(s: &[Seg]) -> bool {
    (0..s.len()).any(|i| (0..i).any(|j| common(s[i].0, s[i].1, s[j].0, s[j].1) != Common::Nothing))
}

/// unordered non-degenerate segments of a grid
fn grid_segs(w: i64, h: i64, scale: i64) -> Vec<Seg> {
    let g = grid_points(w, h);
    let mut v = Vec::new();
    for i in 0..g.len() {
        for j in 0..i {
            let s = |p: P| (p.0 * scale, p.1 * scale);
            v.push((s(g[j]), s(g[i])));
        }
    }
    v
}

fn seg_pts(s: &[Seg]) -> Vec<P> {
    s.iter().flat_map(|l| [l.0, l.1]).collect()
}

/// all places where segments meet are exactly representable in every scalar type
fn dyadic(s: &[Seg]) -> bool {
    (0..s.len()).all(|i| {
        (0..i).all(|j| match common(s[i].0, s[i].1, s[j].0, s[j].1) {
            Common::Point(_, _, n) => n.count_ones() == 1,
            _ => true,
        })
    })
}

/// the segments as edges of a vertex table: with shared vertices, or with two of its own per edge
fn as_edges(s: &[Seg], shared: bool) -> (Vec<P>, Vec<(usize, usize)>) {
    let mut v: Vec<P> = Vec::new();
    if shared {
        v.push((-5, -5)); // a vertex that no edge uses
    }
    let mut idx = |p: P| {
        if shared {
            if let Some(i) = v.iter().position(|q| *q == p) {
                return i;
            }
        }
        v.push(p);
        v.len() - 1
    };
    let e = s.iter().map(|l| (idx(l.0), idx(l.1))).collect();
    (v, e)
}

/// Known finding: a crossing that is calculated in both orders of its two edges (l x r and r x l),
/// with two results that differ in their rounding, is reported for each of them. Such a second
/// report, and nothing else, is taken out of the list.
fn drop_both_orders<T: GenericVector2>(s: &[Line2<T>], r: &mut Report) -> Option<String> {
    let mut what = None;
    let mut k = 0;
    while k < r.len() {
        let twin = (0..k).find(|j| {
            let (a, b) = (&r[*j], &r[k]);
            a.1.len() == 2 && a.0 != b.0 && a.1.iter().all(|i| b.1.contains(i)) && b.1.len() == 2 && {
                let mut at = Vec::new();
                let (u, v) = (s[a.1[0]], s[a.1[1]]);
                for u in [u, Line2::new(u.end, u.start)] {
                    for v in [v, Line2::new(v.end, v.start)] {
                        for x in [u.intersection_point(v), v.intersection_point(u)] {
                            if let Some(Intersection::Intersection(p)) = x {
                                at.push(un2(p));
                            }
                        }
                    }
                }
                at.contains(&a.0) && at.contains(&b.0)
            }
        });
        match twin {
            Some(j) => {
                what = Some(format!("the crossing of {:?} is reported at {:?} and at {:?}", r[k].1, r[j].0, r[k].0));
                r.remove(k);
            }
            None => k += 1,
        }
    }
    what
}

fn c07_case<T: GenericVector2>(n: &str, s: &[Seg], seeds: u64, st: &mut Local) {
    let t = tol::<T::Scalar>(max_abs(&seg_pts(s))) * 16.0;
    for m in MODES {
        for shared in [false, true] {
            let (v, e) = as_edges(s, shared);
            for seed in 0..seeds {
                st.calls += 1;
                match sweep_indexed::<T>(&v, &e, m, seed) {
                    Err(e) => st.fail(format!("{n} {m:?} shared vertices {shared} seed {seed}: {e}")),
                    Ok(mut r) => {
                        if let Some(what) = drop_both_orders::<T>(&s.iter().map(|l| line(*l)).collect::<Vec<_>>(), &mut r) {
                            st.fail_key("indexed-sweep/crossing-reported-in-both-orders", format!("{n} {m:?} seed {seed}: {what}"));
                        }
                        if let Err(e) = report_verdict(s, &r, m, t) {
                            st.fail(format!("{n} {m:?} shared vertices {shared} seed {seed}: {e}; reported {r:?}"))
                        }
                    }
                }
            }
        }
    }
}

#[derive(Clone, Copy, PartialEq)]
pub enum Which {
    Lines,
    Indexed,
}

fn sweep_one<T: GenericVector2>(w: Which, n: &str, s: &[Seg], seeds: u64, st: &mut Local) {
    match w {
        Which::Lines => c06_case::<T>(n, s, seeds, st),
        Which::Indexed => c07_case::<T>(n, s, seeds, st),
    }
}

fn note(s: &[Seg], st: &mut Local) {
    if has_pair(s) {
        st.nontrivial += 1;
    }
    let mut c: Vec<Common> = Vec::new();
    for i in 0..s.len() {
        for j in 0..i {
            let k = common(s[i].0, s[i].1, s[j].0, s[j].1);
            kind(k, st);
            if k != Common::Nothing {
                c.push(k);
            }
        }
    }
    st.state(&c);
}

/// Structured inputs with many segments: grids of lines, fans, stars, combs, chains, stacks.
fn big_sets(ns: &[i64]) -> Vec<(String, Vec<Seg>)> {
    let mut v: Vec<(String, Vec<Seg>)> = Vec::new();
    for n in ns.iter().copied() {
        let m = 100 * n;
        let h: Vec<Seg> = (0..n).map(|i| ((0, 100 * i + 50), (m, 100 * i + 50))).collect();
        let w: Vec<Seg> = (0..n).map(|i| ((100 * i + 50, 0), (100 * i + 50, m))).collect();
        v.push((format!("{n} horizontal and {n} vertical lines"), h.iter().chain(&w).copied().collect()));
        v.push((format!("{n} vertical and {n} reversed horizontal lines"), w.iter().copied().chain(h.iter().map(|s| (s.1, s.0))).collect()));
        v.push((format!("{n} horizontal lines"), h.clone()));
        // comb: teeth that touch the spine
        let mut comb = vec![((0, 0), (m, 0))];
        comb.extend((0..n).map(|i| ((100 * i + 50, 0), (100 * i + 50, 70))));
        v.push((format!("a horizontal spine and {n} teeth standing on it"), comb.clone()));
        v.push((format!("a vertical spine and {n} teeth"), comb.iter().map(|s| ((s.0 .1, s.0 .0), (s.1 .1, s.1 .0))).collect()));
        v.push((format!("a spine with {n} hanging teeth"), comb.iter().map(|s| ((s.0 .0, -s.0 .1), (s.1 .0, -s.1 .1))).collect()));
        v.push((format!("a sloped spine and {n} teeth"), comb.iter().map(|s| ((s.0 .0 - s.0 .1, s.0 .0 + s.0 .1), (s.1 .0 - s.1 .1, s.1 .0 + s.1 .1))).collect()));
        // a fan: all start at one point
        v.push((format!("a fan of {n} lines from the lowest point"), (0..n).map(|i| ((500, 500), (500 + 40 * i - 20 * n, 900))).collect()));
        v.push((format!("a fan of {n} lines to the highest point"), (0..n).map(|i| ((500 + 40 * i - 20 * n, 100), (500, 500))).collect()));
        // a star: all pass through one point
        v.push((format!("a star of {n} lines"), (0..n).map(|i| ((4000 - 16 * (2 * i - n), 4000 - 256), (4000 + 16 * (2 * i - n), 4000 + 256))).collect()));
        v.push((format!("a star of {n} lines and the horizontal and the vertical through its centre"), {
            let mut s: Vec<Seg> = (0..n).map(|i| ((4000 - 16 * (2 * i - n), 4000 - 256), (4000 + 16 * (2 * i - n), 4000 + 256))).collect();
            s.push(((3000, 4000), (5000, 4000)));
            s.push(((4000, 3000), (4000, 5000)));
            s
        }));
        // a chain, a saw crossed by a line, nested overlaps
        let saw: Vec<P> = (0..=n).map(|i| (100 * i, if i % 2 == 0 { 0 } else { 64 })).collect();
        let saw: Vec<Seg> = saw.windows(2).map(|w| (w[0], w[1])).collect();
        v.push((format!("a saw of {n} edges"), saw.clone()));
        let mut s = saw.clone();
        s.push(((-10, 32), (m + 10, 32)));
        v.push((format!("a saw of {n} edges and a line through it"), s));
        let mut s = saw.clone();
        s.push(((-10, 0), (m + 10, 0)));
        v.push((format!("a saw of {n} edges and a line along its corners"), s));
        let mut s = saw;
        s.push(((-10, 64), (m + 10, 64)));
        s.push(((-10, 65), (m + 10, 65)));
        v.push((format!("a saw of {n} edges and lines at and above its corners"), s));
        v.push((format!("{n} nested horizontal overlaps"), (0..n).map(|i| ((100 * i, 7), (100 * (2 * n - i), 7))).collect()));
        v.push((format!("{n} nested vertical overlaps"), (0..n).map(|i| ((7, 100 * i), (7, 100 * (2 * n - i)))).collect()));
        v.push((format!("{n} shifted sloped overlaps"), (0..n).map(|i| ((100 * i, 200 * i), (100 * i + 150, 200 * i + 300))).collect()));
        v.push((format!("{n} times the same line"), (0..n).map(|_| ((0, 0), (100, 50))).collect()));
        v.push((format!("{n} parallel sloped lines crossed by one"), {
            let mut s: Vec<Seg> = (0..n).map(|i| ((100 * i, 0), (100 * i + 100, 100))).collect();
            s.push(((0, 50), (m + 100, 50)));
            s
        }));
        // a complete graph on the corners of a convex polygon
        let poly: Vec<P> = lattice_polygon(n.min(7) as usize).iter().map(|p| (p.0 * 64 + 1000, p.1 * 64 + 1000)).collect();
        let k = poly.len();
        v.push((format!("outline of a polygon with {k} corners"), (0..k).map(|i| (poly[i], poly[(i + 1) % k])).collect()));
    }
    v
}

/// segments between the points of a flat box, and single points
const FLAT: u64 = 82;
/// k of these
fn flat_set(i: u64, k: u64) -> Vec<Seg> {
    let f = flat_points([20, 500, 4096][(i % 3) as usize], i / 3 % 4);
    let mut all: Vec<Seg> = (0..13).flat_map(|a| (0..a).map(move |b| (a, b))).map(|(a, b)| (f[a], f[b])).collect();
    all.extend([0, 4, 7, 8].map(|a| (f[a], f[a])));
    subset(i / 12, FLAT, k).iter().map(|j| all[*j as usize]).collect()
}

fn sweep_families(w: Which, t: Tier) -> Vec<Box<dyn Family>> {
    let mut v: Vec<Box<dyn Family>> = Vec::new();
    let rule = "some two segments have a point in common";
    let seeds = t.pick(3, 8);
    // pairs, single points included, every direction, every vector type
    v.push(fam(
        "every pair of directed segments and points on a 3x3 grid",
        rule,
        6561,
        |i| {
            let p = grid_seq(i, 3, 3, 4, 4);
            vec![(p[0], p[1]), (p[2], p[3])]
        },
        move |s: &Vec<Seg>, st| {
            note(s, st);
            let s8: Vec<Seg> = s.iter().map(|l| ((l.0 .0 * 840, l.0 .1 * 840), (l.1 .0 * 840, l.1 .1 * 840))).collect();
            sweep_one::<DVec2>(w, "DVec2", &s8, 2, st);
            if degenerate(s) {
                return;
            }
            for_2d!(T, n, { sweep_one::<T>(w, n, s, 2, st) });
        },
    ));
    let nm = MAPS.len() as u64;
    let dec3 = |i: u64| {
        let s = grid_segs(3, 3, 1);
        let k = subset(i, s.len() as u64, 3);
        k.iter().map(|k| s[*k as usize]).collect::<Vec<Seg>>()
    };
    v.push(fam(
        "every set of 3 segments on a 3x3 grid under all placements",
        rule,
        binom(36, 3) * nm,
        move |i| {
            let m = MAPS[(i % nm) as usize];
            dec3(i / nm).iter().map(|l| (m.on(l.0), m.on(l.1))).collect::<Vec<Seg>>()
        },
        move |s: &Vec<Seg>, st| {
            note(s, st);
            if dyadic(s) {
                for_2d!(T, n, { sweep_one::<T>(w, n, s, 1, st) });
            }
            sweep_one::<DVec2>(w, "DVec2", &scaled(s, 840), seeds, st);
        },
    ));
    v.push(fam(
        "every set of 2 segments (4 points included) between 13 points in and around a flat box, 3 lengths, 4 positions",
        rule,
        binom(FLAT, 2) * 12,
        |i| flat_set(i, 2),
        move |s: &Vec<Seg>, st| {
            note(s, st);
            sweep_one::<DVec2>(w, "DVec2", s, 1, st);
        },
    ));
    v.push(fam(
        "every set of 3 segments (4 points included) between 13 points in and around a flat box, 3 lengths, 4 positions",
        rule,
        binom(FLAT, 3) * 12,
        |i| flat_set(i, 3),
        move |s: &Vec<Seg>, st| {
            if inexact_meeting(s) {
                st.tag("left out: three segments meet at a place that is not representable");
                return;
            }
            note(s, st);
            sweep_one::<DVec2>(w, "DVec2", s, 1, st);
        },
    ));
    let s3 = grid_segs(3, 3, 840);
    v.push(fam(
        "every sequence of 3 segments on a 3x3 grid, some reversed",
        rule,
        36 * 36 * 36,
        move |i| {
            let mut v = vec![s3[(i % 36) as usize], s3[(i / 36 % 36) as usize], s3[(i / 1296) as usize]];
            for (k, l) in v.iter_mut().enumerate() {
                if (i * 7 + i / 36) >> k & 1 == 1 {
                    *l = (l.1, l.0);
                }
            }
            v
        },
        move |s: &Vec<Seg>, st| {
            note(s, st);
            sweep_one::<DVec2>(w, "DVec2", s, seeds, st);
        },
    ));
    let s3 = grid_segs(3, 3, 840);
    v.push(fam(
        "every set of 4 segments on a 3x3 grid, in two orders",
        rule,
        binom(36, 4) * 2,
        move |i| {
            let k = subset(i / 2, 36, 4);
            let mut v: Vec<Seg> = k.iter().map(|k| s3[*k as usize]).collect();
            if i % 2 == 1 {
                v.reverse();
                v[1] = (v[1].1, v[1].0);
            }
            v
        },
        move |s: &Vec<Seg>, st| {
            note(s, st);
            sweep_one::<DVec2>(w, "DVec2", s, seeds, st);
        },
    ));
    // the least common multiple of all denominators that occur on a 4x4 grid; moved away from the
    // axes, where the tolerance of the floating point comparison is relative to the position
    const L4: i64 = 12_252_240;
    let s4: Vec<Seg> = grid_segs(4, 4, L4)
        .iter()
        .map(|s| ((s.0 .0 + 9 * L4, s.0 .1 + 9 * L4), (s.1 .0 + 9 * L4, s.1 .1 + 9 * L4)))
        .collect();
    let n4 = s4.len() as u64;
    v.push(fam(
        "every set of 3 segments on a 4x4 grid",
        rule,
        binom(n4, 3),
        move |i| subset(i, n4, 3).iter().map(|k| s4[*k as usize]).collect::<Vec<Seg>>(),
        move |s: &Vec<Seg>, st| {
            note(s, st);
            sweep_one::<DVec2>(w, "DVec2", s, t.pick(2, 4), st);
        },
    ));
    let s3 = grid_segs(3, 3, 840);
    v.push(fam(
        "every set of 5 segments on a 3x3 grid",
        rule,
        binom(36, 5),
        move |i| subset(i, 36, 5).iter().map(|k| s3[*k as usize]).collect::<Vec<Seg>>(),
        move |s: &Vec<Seg>, st| {
            note(s, st);
            sweep_one::<DVec2>(w, "DVec2", s, t.pick(1, 3), st);
        },
    ));
    if !t.quick() {
        let s4: Vec<Seg> = grid_segs(4, 4, L4)
            .iter()
            .map(|s| ((s.0 .0 + 9 * L4, s.0 .1 + 9 * L4), (s.1 .0 + 9 * L4, s.1 .1 + 9 * L4)))
            .collect();
        v.push(fam(
            "every set of 4 segments on a 4x4 grid",
            rule,
            binom(n4, 4),
            move |i| subset(i, n4, 4).iter().map(|k| s4[*k as usize]).collect::<Vec<Seg>>(),
            move |s: &Vec<Seg>, st| {
                note(s, st);
                sweep_one::<DVec2>(w, "DVec2", s, 1, st);
            },
        ));
    }
    // crossings at places that are not representable
    let side = t.pick(4, 5);
    let sn: Vec<Seg> = grid_segs(side, side, 1000).iter().map(|s| ((s.0 .0 + 500, s.0 .1 + 500), (s.1 .0 + 500, s.1 .1 + 500))).collect();
    let nn = sn.len() as u64;
    v.push(fam(
        format!("every set of 3 segments on a {side}x{side} grid, crossings rounded"),
        rule,
        binom(nn, 3),
        move |i| subset(i, nn, 3).iter().map(|k| sn[*k as usize]).collect::<Vec<Seg>>(),
        move |s: &Vec<Seg>, st| {
            if inexact_meeting(s) {
                st.tag("left out: three segments meet at a place that is not representable");
                return;
            }
            note(s, st);
            sweep_one::<DVec2>(w, "DVec2", s, 1, st);
        },
    ));
    // lines at the same distance from a place, the distances rounded differently
    let spanning = |n: i64, reach: i64| grid_segs(n, n, 1).into_iter().filter(move |l| (l.0 .0 - l.1 .0).abs().max((l.0 .1 - l.1 .1).abs()) >= reach).collect::<Vec<Seg>>();
    let at: &[P] = t.pick(&[(-2, -2), (-1, -1), (0, 0), (-7, 3)], &[(-2, -2), (-1, -1), (0, 0), (-7, 3), (-1, -2), (-2, -1), (-3, 0), (1001, -1000), (1 << 20, 5)]);
    for (n, reach) in t.pick(vec![(4, 3), (5, 4)], vec![(4, 3), (4, 2), (5, 4), (6, 5)]) {
        let sg = spanning(n, reach);
        let len = sg.len() as u64;
        let na = at.len() as u64;
        v.push(fam(
            format!("every set of 4 of the {len} segments of length {reach} or more of a {n}x{n} grid with crossings rounded, {na} positions: every two that meet are reported together"),
            rule,
            binom(len, 4) * na,
            move |i| {
                let o = at[(i % na) as usize];
                let k = subset(i / na, len, 4);
                let mut v: Vec<Seg> = k.iter().map(|k| sg[*k as usize]).map(|l| ((l.0 .0 + o.0, l.0 .1 + o.1), (l.1 .0 + o.0, l.1 .1 + o.1))).collect();
                if i % 2 == 1 {
                    v.rotate_left(1);
                    v.swap(1, 2);
                }
                v
            },
            move |s: &Vec<Seg>, st| {
                note(s, st);
                sweep_pairs::<DVec2>(w, "DVec2", s, st);
                sweep_pairs::<Vec2>(w, "Vec2", s, st);
            },
        ));
    }
    let s3 = grid_segs(3, 3, 1);
    v.push(fam(
        "coordinates that are rounded: every set of 2 and 3 segments on a 3x3 grid with 6 steps that can't be represented, in 6 directions and 3 positions; where rounding decides whether segments touch, the crossings in the middle of two segments are asked for",
        rule,
        (binom(36, 2) + binom(36, 3)) * 108,
        move |i| {
            let k = i / 108;
            let k = if k < binom(36, 2) { subset(k, 36, 2) } else { subset(k - binom(36, 2), 36, 3) };
            (RoundedGrid::nth(i % 108), k.iter().map(|k| s3[*k as usize]).collect::<Vec<Seg>>())
        },
        move |(g, s): &(RoundedGrid, Vec<Seg>), st| {
            note(s, st);
            rounded_sweep::<DVec2>(w, "DVec2", g, s, 1e-13, st);
            // a step of a few ulps is nothing that segments can be told apart by
            if (g.step, g.at) != (1, 2) {
                rounded_sweep::<Vec2>(w, "Vec2", g, s, 1e-5, st);
            }
        },
    ));
    // line strings: consecutive segments share their end points
    let hi = t.pick(5, 6);
    v.push(fam(
        format!("every line string of 3 to {hi} points of a 3x3 grid"),
        rule,
        seq_count(9, 3, hi),
        move |i| grid_seq(i, 3, 3, 3, hi),
        move |p: &Vec<P>, st| {
            let q: Vec<P> = p.iter().map(|p| (p.0 * 840 + 8400, p.1 * 840 + 8400)).collect();
            let s: Vec<Seg> = q.windows(2).map(|w| (w[0], w[1])).collect();
            note(&s, st);
            sweep_one::<DVec2>(w, "DVec2", &s, t.pick(1, 2), st);
        },
    ));
    v.push(fam_list("structured sets of many segments, 3 orders, 8 directions patterns", rule, big_sets(&[4, 7, 12]), move |(_, s): &(String, Vec<Seg>), st| {
        note(s, st);
        let n = s.len();
        for order in 0..3 {
            for dir in 0..8usize {
                let mut q: Vec<Seg> = s.clone();
                match order {
                    1 => q.reverse(),
                    2 => q = (0..n).map(|i| s[(i * 7 + 3) % n]).collect(),
                    _ => (),
                }
                if order == 2 && n % 7 == 0 {
                    continue;
                }
                for (i, l) in q.iter_mut().enumerate() {
                    if dir >> (i % 3) & 1 == 1 {
                        *l = (l.1, l.0);
                    }
                }
                sweep_one::<DVec2>(w, "DVec2", &q, t.pick(2, 8), st);
                if dyadic(s) {
                    sweep_one::<Vec2>(w, "Vec2", &q, 1, st);
                }
                if st.failed() {
                    return;
                }
            }
        }
    }));
    let ns = t.pick(vec![20, 33, 65], vec![20, 31, 32, 33, 50, 64, 65, 101, 129, 200]);
    v.push(fam_list("structured sets of very many segments, 2 orders, 2 directions patterns", rule, big_sets(&ns), move |(_, s): &(String, Vec<Seg>), st| {
        note(s, st);
        let n = s.len();
        for k in 0..2 {
            let mut q: Vec<Seg> = s.clone();
            if k == 1 {
                q.rotate_left(n / 3);
                q.reverse();
                for l in q.iter_mut().step_by(2) {
                    *l = (l.1, l.0);
                }
            }
            sweep_one::<DVec2>(w, "DVec2", &q, 1, st);
        }
    }));
    v.push(fam_list("more than 65536 segments and vertices: pairs of segments that cross, in 4 orders, with and without segments that don't", rule, (0..8).collect(), move |k, st| many_pairs(w, *k, &[], st)));
    // a fixed list of sets (their points follow a quadratic walk), whose only purpose is a long event history
    let n = t.pick(4000, 40_000);
    v.push(fam(
        "long event histories: 12 to 40 segments between the points of a 31x31 grid from a fixed list",
        rule,
        n,
        |i| {
            let k = 12 + (i % 29);
            let mut x = i * 7919 + 17;
            let mut next = || {
                x = (x * x + x + 41) % 1_000_003;
                (x % 31) as i64 * 1000 + 500
            };
            (0..k).map(|_| ((next(), next()), (next(), next()))).collect::<Vec<Seg>>()
        },
        move |s: &Vec<Seg>, st| {
            if inexact_meeting(s) {
                st.tag("left out: three segments meet at a place that is not representable");
                return;
            }
            note(s, st);
            sweep_one::<DVec2>(w, "DVec2", s, 2, st);
        },
    ));
    v.push(fam(
        "very long event histories: 60 to 180 short segments between the points of a 301x301 grid from a fixed list",
        rule,
        t.pick(400, 6000),
        |i| {
            let k = 60 + (i * 17 % 121);
            let mut x = i * 104_729 + 29;
            let mut next = |m: u64| {
                x = (x * x + x + 41) % 1_000_003;
                (x % m) as i64 * 100 + 50
            };
            (0..k)
                .map(|_| {
                    let a = (next(301), next(301));
                    (a, (a.0 + next(61) - 3000, a.1 + next(61) - 3000))
                })
                .filter(|l| l.0 != l.1)
                .collect::<Vec<Seg>>()
        },
        move |s: &Vec<Seg>, st| {
            if inexact_meeting(s) {
                st.tag("left out: three segments meet at a place that is not representable");
                return;
            }
            note(s, st);
            sweep_one::<DVec2>(w, "DVec2", s, 1, st);
        },
    ));
    v
}

/// What rounding can't change: crossings of two segments away from their ends, and equal end points. The expected
/// places, or None if there is anything else.
fn clear_places(s: &[Seg]) -> Option<Vec<((i64, i64, i64), Vec<usize>, bool)>> {
    let mut v: Vec<((i64, i64, i64), Vec<usize>, bool)> = Vec::new();
    for i in 0..s.len() {
        for j in 0..i {
            match common(s[i].0, s[i].1, s[j].0, s[j].1) {
                Common::Nothing => {}
                Common::Overlap(..) => return None,
                Common::Point(x, y, n) => {
                    let is_end = |k: usize| n == 1 && (s[k].0 == (x, y) || s[k].1 == (x, y));
                    if is_end(i) != is_end(j) {
                        return None;
                    }
                    match v.iter_mut().find(|(p, _, _)| *p == (x, y, n)) {
                        None => v.push(((x, y, n), vec![j, i], is_end(i))),
                        Some((_, l, end)) => {
                            if !*end || !is_end(i) {
                                return None;
                            }
                            l.extend([j, i]);
                            l.sort();
                            l.dedup();
                        }
                    }
                }
            }
        }
    }
    Some(v)
}

fn rounded_sweep<T: GenericVector2>(w: Which, n: &str, g: &RoundedGrid, s: &[Seg], tol: f64, st: &mut Local) {
    let Some(want) = clear_places(s) else {
        st.tag("rounding decides whether segments touch: what is clear has to be found");
        sweep_touching::<T>(w, n, g, s, tol, st);
        return;
    };
    let on = |p: P| rounded_at::<T>(g, p);
    let lines: Vec<Line2<T>> = s.iter().map(|l| Line2 { start: on(l.0), end: on(l.1) }).collect();
    let (o, ex, ey) = (g.on((0, 0)), g.on((1, 0)), g.on((0, 1)));
    let unit = g.unit();
    for m in MODES {
        for shared in [false, true] {
            if shared && w == Which::Lines {
                continue;
            }
            st.calls += 1;
            let r = match w {
                Which::Lines => sweep_lines(&lines, m, 1),
                Which::Indexed => {
                    let (v, e) = as_edges(s, shared);
                    sweep_edges::<T>(v.iter().map(|p| on(*p)).collect(), &e, m, 1)
                }
            };
            let mut r = match r {
                Ok(r) => r,
                Err(e) => {
                    st.fail(format!("{n} {m:?}: {e}"));
                    return;
                }
            };
            if w == Which::Indexed {
                if let Some(what) = drop_both_orders::<T>(&lines, &mut r) {
                    st.fail_key("indexed-sweep/crossing-reported-in-both-orders", format!("{n} {m:?}: {what}"));
                }
            }
            let want: Vec<_> = want.iter().filter(|p| !(m.ignore && p.2)).collect();
            let matching = |(p, l): &((f64, f64), Vec<usize>)| {
                let mut l = l.clone();
                l.sort();
                want.iter().any(|((x, y, d), k, _)| {
                    let (x, y) = (*x as f64 / *d as f64, *y as f64 / *d as f64);
                    let q = (o.0 + (ex.0 - o.0) * x + (ey.0 - o.0) * y, o.1 + (ex.1 - o.1) * x + (ey.1 - o.1) * y);
                    *k == l && (p.0 - q.0).abs() <= tol * unit && (p.1 - q.1).abs() <= tol * unit
                })
            };
            let ok = r.iter().all(matching) && r.len() == if m.first { want.len().min(1) } else { want.len() };
            ensure!(st, ok, "{n} {m:?} shared vertices {shared}: {lines:?} meet at {want:?} of the grid, reported {r:?}");
        }
    }
}

/// Crossings in the middle of two segments must be found, whatever rounding makes of the others, and what is found
/// must be on the segments.
fn sweep_touching<T: GenericVector2>(w: Which, n: &str, g: &RoundedGrid, s: &[Seg], tol: f64, st: &mut Local) {
    let on = |p: P| rounded_at::<T>(g, p);
    let lines: Vec<Line2<T>> = s.iter().map(|l| Line2 { start: on(l.0), end: on(l.1) }).collect();
    let near = |q: (f64, f64), l: &Line2<T>| {
        let (a, b) = (un2(l.start), un2(l.end));
        let (dx, dy) = (b.0 - a.0, b.1 - a.1);
        let k = (((q.0 - a.0) * dx + (q.1 - a.1) * dy) / (dx * dx + dy * dy)).clamp(0.0, 1.0);
        (q.0 - a.0 - k * dx).abs().max((q.1 - a.1 - k * dy).abs()) <= tol * g.unit()
    };
    let mut clear: Vec<(usize, usize)> = Vec::new();
    for i in 0..s.len() {
        for j in 0..i {
            if let Common::Point(x, y, k) = common(s[i].0, s[i].1, s[j].0, s[j].1) {
                // no third segment is there, rounding could make two places of it
                let large = |p: P| (p.0 * k, p.1 * k);
                if (0..s.len()).any(|h| h != i && h != j && on_segment(large(s[h].0), large(s[h].1), (x, y))) {
                    continue;
                }
                if k != 1 || ![s[i].0, s[i].1, s[j].0, s[j].1].contains(&(x, y)) {
                    clear.push((j, i));
                }
            }
        }
    }
    for ignore in [false, true] {
        for shared in [false, true] {
            if shared && w == Which::Lines {
                continue;
            }
            let m = Mode { ignore, first: false };
            st.calls += 1;
            let r = match w {
                Which::Lines => sweep_lines(&lines, m, 1),
                Which::Indexed => {
                    let (v, e) = as_edges(s, shared);
                    sweep_edges::<T>(v.iter().map(|p| on(*p)).collect(), &e, m, 1)
                }
            };
            match r {
                Ok(r) => {
                    for (i, j) in &clear {
                        ensure!(st, r.iter().any(|(_, l)| l.contains(i) && l.contains(j)), "{n} {m:?} shared vertices {shared}: {lines:?}: {i} and {j} cross, reported {r:?}");
                    }
                    for (q, l) in &r {
                        ensure!(st, l.iter().all(|k| near(*q, &lines[*k])), "{n} {m:?} shared vertices {shared}: {lines:?}: reported at {q:?}, which is not on all of {l:?}");
                    }
                }
                Err(e) => st.fail(format!("{n} {m:?} shared vertices {shared}: {lines:?}: {e}")),
            }
        }
    }
}

/// Every two segments with one common point are reported together, nothing else is. Where more than two segments meet
/// at a place that can't be represented it may be reported as several.
fn sweep_pairs<T: GenericVector2>(w: Which, n: &str, s: &[Seg], st: &mut Local) {
    let mut want: Vec<(usize, usize, bool)> = Vec::new();
    for i in 0..s.len() {
        for j in 0..i {
            match common(s[i].0, s[i].1, s[j].0, s[j].1) {
                Common::Nothing => {}
                Common::Overlap(..) => {
                    st.tag("left out: overlapping segments");
                    return;
                }
                Common::Point(x, y, d) => {
                    let is_end = |k: usize| d == 1 && (s[k].0 == (x, y) || s[k].1 == (x, y));
                    want.push((j, i, is_end(i) && is_end(j)));
                }
            }
        }
    }
    let on = |p: P| v2::<T>(p.0 as f64, p.1 as f64);
    let lines: Vec<Line2<T>> = s.iter().map(|l| Line2 { start: on(l.0), end: on(l.1) }).collect();
    for ignore in [false, true] {
        let m = Mode { ignore, first: false };
        st.calls += 1;
        let r = match w {
            Which::Lines => sweep_lines(&lines, m, 1),
            Which::Indexed => {
                let (v, e) = as_edges(s, true);
                sweep_edges::<T>(v.iter().map(|p| on(*p)).collect(), &e, m, 1)
            }
        };
        match r {
            Ok(r) => {
                for (j, i, ends) in &want {
                    let found = r.iter().any(|(_, l)| l.contains(i) && l.contains(j));
                    ensure!(st, found || (ignore && *ends), "{n} {m:?}: {lines:?}: {j} and {i} have a point in common, reported {r:?}");
                }
                for (q, l) in &r {
                    for (k, i) in l.iter().enumerate() {
                        for j in &l[..k] {
                            ensure!(st, i == j || want.iter().any(|(a, b, _)| (a, b) == (i.min(j), i.max(j))), "{n} {m:?}: {lines:?}: {i} and {j} have no common point, but are reported at {q:?}");
                        }
                    }
                }
            }
            Err(e) => st.fail(format!("{n} {m:?}: {lines:?}: {e}")),
        }
    }
}

/// three segments meet at a place with a denominator that is not a power of two
fn inexact_meeting(s: &[Seg]) -> bool {
    let mut seen = std::collections::HashSet::new();
    for i in 0..s.len() {
        for j in 0..i {
            if let Common::Point(x, y, n) = common(s[i].0, s[i].1, s[j].0, s[j].1) {
                if n.count_ones() != 1 && !seen.insert((x, y, n)) {
                    return true;
                }
            }
        }
    }
    false
}

fn degenerate(s: &[Seg]) -> bool {
    s.iter().any(|l| l.0 == l.1)
}
fn scaled(s: &[Seg], k: i64) -> Vec<Seg> {
    s.iter().map(|l| ((l.0 .0 * k, l.0 .1 * k), (l.1 .0 * k, l.1 .1 * k))).collect()
}

fn c06(t: Tier) -> Vec<Box<dyn Family>> {
    sweep_families(Which::Lines, t)
}
fn c07(t: Tier) -> Vec<Box<dyn Family>> {
    sweep_families(Which::Indexed, t)
}

const SWEEP_ASSUME: &[&str] = &[
    "places where three or more segments meet are exactly representable (the grids are scaled by the common multiple of the denominators), because the crate identifies places by their floating point position",
    "coordinates are not within the absolute epsilon of the scalar type of each other unless they are equal",
];

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C05",
            families: |t| with_digits(with_zeros(with_scales(c05, t, &["coordinates that are rounded", "pair of segments on a 3x3 grid under all placements", "segment and point on a 5x5"], &CROSS_SCALES), c05, &["on a 3x3 grid under all placements", "segment and point on a 5x5"]), c05, &["on a 3x3 grid under all placements"]),
            bounds: "all pairs of segments of a 4x4 grid (thorough also 7x7) and of a 3x3 grid under 12 placements, all segment/point pairs of a 5x5 grid under 12 placements, all segments and points between 13 points in and around flat boxes 20 to 262144 long and 1 high",
            assumptions: &["a single point beside a segment, but closer to it than a few roundings of the largest coordinate, is not decided", "coordinates are integers, so that classification is exact; computed points are compared within 64 epsilon of the scalar type times the largest coordinate"],
        },
        Prop {
            id: "C06",
            families: |t| with_digits(with_zeros(with_scales(c06, t, &["coordinates that are rounded", "3 segments on a 3x3 grid under all placements"], &CROSS_SCALES), c06, &["3 segments on a 3x3 grid under all placements", "pair of directed segments"]), c06, &["pair of directed segments"]),
            bounds: "all pairs of directed segments and points of a 3x3 grid, all sets of 3 segments of a 3x3 grid under 10 placements and of a 4x4 grid, all directed sequences of 3 and all sets of 4 and 5 segments of a 3x3 grid (thorough also 4 of a 4x4 grid), all line strings up to 5 (6) points of a 3x3 grid, all sets of 2 and 3 segments between 13 points in and around flat boxes, structured sets up to 25 segments in 24 arrangements and up to 130 (400) segments in 2, 4400 (46000) fixed sets of 12 to 180 segments, 8 sets of 80000; each with the 4 option combinations and up to 3 (8) hash seeds",
            assumptions: SWEEP_ASSUME,
        },
        Prop {
            id: "C07",
            families: |t| with_digits(with_zeros(with_scales(c07, t, &["coordinates that are rounded", "line string of 3"], &CROSS_SCALES), c07, &["line string of 3", "pair of directed segments"]), c07, &["line string of 3", "pair of directed segments"]),
            bounds: "as for the sweep over segments, with every edge set once over shared and once over separate vertices",
            assumptions: SWEEP_ASSUME,
        },
    ]
}
