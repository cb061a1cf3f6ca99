//! C15 discretized line strings, C16 parabolic arcs.
use super::simp::{long_lines, map3, MAPS3};
use crate::fw::*;
use crate::geo::*;
use crate::{ensure, for_2d, for_3d};
use linestring::linestring_2d::{Line2, VoronoiParabolicArc};
use linestring::prelude::{LineString2, LineString3};
use vector_traits::glam::{DVec2, DVec3};
use vector_traits::{GenericVector2, GenericVector3, HasXY};

// ------------------------------------------------------------------ C15

/// step lengths in eighths; None: no limit
type Dist = Option<i64>;
const DISTS: [Dist; 14] = [
    Some(1),
    Some(2),
    Some(3),
    Some(4),
    Some(6),
    Some(8),
    Some(9),
    Some(12),
    Some(16),
    Some(24),
    Some(40),
    Some(100),
    Some(100_000),
    None,
];

/// the smallest number of equal steps of at most d for a length whose square is l2
fn steps(l2: i64, d: Dist) -> i64 {
    let Some(d) = d else { return 1 };
    // n * d / 8 >= sqrt(l2)
    let mut n = (8.0 * (l2 as f64).sqrt() / d as f64) as i64;
    n = (n - 2).max(1);
    while n * n * d * d < 64 * l2 {
        n += 1;
    }
    n
}
/// the points that are expected
fn sampled(p: &[P3], d: Dist) -> Vec<(f64, f64, f64)> {
    let mut v = Vec::new();
    for w in p.windows(2) {
        let (a, b) = (w[0], w[1]);
        let e = (b.0 - a.0, b.1 - a.1, b.2 - a.2);
        let n = steps(e.0 * e.0 + e.1 * e.1 + e.2 * e.2, d);
        for k in 0..n {
            let at = |a: i64, e: i64| a as f64 + (e * k) as f64 / n as f64;
            v.push((at(a.0, e.0), at(a.1, e.1), at(a.2, e.2)));
        }
    }
    if let Some(l) = p.last() {
        v.push((l.0 as f64, l.1 as f64, l.2 as f64));
    }
    v
}
fn same(g: &[(f64, f64, f64)], w: &[(f64, f64, f64)], t: f64) -> bool {
    let near = |a: f64, b: f64| (a - b).abs() <= t;
    g.len() == w.len()
        && g.iter()
            .zip(w)
            .all(|(g, w)| near(g.0, w.0) && near(g.1, w.1) && near(g.2, w.2))
}
/// the given points are among the samples, unchanged and in order
fn keeps(g: &[(f64, f64, f64)], p: &[P3]) -> bool {
    let mut it = g.iter();
    p.iter()
        .all(|p| it.any(|g| *g == (p.0 as f64, p.1 as f64, p.2 as f64)))
}
fn length3(p: &[P3]) -> i64 {
    p.iter()
        .map(|p| p.0.abs().max(p.1.abs()).max(p.2.abs()))
        .max()
        .unwrap_or(0)
}
fn dist<S: vector_traits::num_traits::FromPrimitive>(d: Dist) -> S {
    len(d.map(|d| d as f64 / 8.0).unwrap_or(f64::INFINITY))
}
/// (no comparison with the machine epsilon: squares of lengths have to be representable, nothing else)
const C15_SCALES: [(i32, i32); 6] = [(-400, -50), (-80, -30), (-25, -11), (20, 8), (200, 18), (400, 50)];
/// a limit on the number of samples, so that a wrong count is reported and not collected
const MANY: usize = 4_000_000;

fn disc2<T: GenericVector2>(n: &str, p: &[P], d: Dist, st: &mut Local)
where
    usize: vector_traits::num_traits::AsPrimitive<T::Scalar>,
{
    let q: Vec<P3> = p.iter().map(|p| (p.0, p.1, 0)).collect();
    let v: Vec<T> = ms2(p);
    let want = sampled(&q, d);
    st.calls += 1;
    let mut it = v.discretize(dist(d));
    let g: Vec<(f64, f64, f64)> = it
        .by_ref()
        .take((want.len() * 2 + 2).min(MANY))
        .map(|p| un2(p))
        .map(|p| (p.0, p.1, 0.0))
        .collect();
    let t = tol::<T::Scalar>(length3(&q));
    ensure!(
        st,
        keeps(&g, &q),
        "{n}: {p:?} with steps of {d:?}/8 lost a point: {g:?}"
    );
    ensure!(
        st,
        same(&g, &want, t),
        "{n}: {p:?} with steps of {d:?}/8: {} points {g:?}, expected {} {want:?}",
        g.len(),
        want.len()
    );
    ensure!(
        st,
        it.next().is_none() && it.next().is_none(),
        "{n}: {p:?}: points after the end"
    );
}
fn disc3<T: GenericVector3>(n: &str, p: &[P3], d: Dist, st: &mut Local)
where
    usize: vector_traits::num_traits::AsPrimitive<T::Scalar>,
{
    let v: Vec<T> = ms3(p);
    let want = sampled(p, d);
    st.calls += 1;
    let mut it = v.discretize(dist(d));
    let g: Vec<(f64, f64, f64)> = it
        .by_ref()
        .take((want.len() * 2 + 2).min(MANY))
        .map(un3)
        .collect();
    let t = tol::<T::Scalar>(length3(p));
    ensure!(
        st,
        keeps(&g, p),
        "{n}: {p:?} with steps of {d:?}/8 lost a point: {g:?}"
    );
    ensure!(
        st,
        same(&g, &want, t),
        "{n}: {p:?} with steps of {d:?}/8: {} points {g:?}, expected {} {want:?}",
        g.len(),
        want.len()
    );
    ensure!(
        st,
        it.next().is_none() && it.next().is_none(),
        "{n}: {p:?}: points after the end"
    );
}

fn c15(t: Tier) -> Vec<Box<dyn Family>> {
    let mut v: Vec<Box<dyn Family>> = Vec::new();
    let rule = "some segment is divided";
    fn nt(p: &[P3], st: &mut Local) {
        if DISTS.iter().any(|d| sampled(p, *d).len() > p.len()) {
            st.nontrivial += 1;
        }
        st.state(&p);
    }
    let k = t.pick(4, 5);
    v.push(fam(
        format!("every line string of up to {k} points of a 4x4 grid, 14 step lengths"),
        rule,
        seq_count(16, 0, k),
        move |i| grid_seq(i, 4, 4, 0, k),
        |p: &Vec<P>, st| {
            nt(&p.iter().map(|p| (p.0, p.1, 0)).collect::<Vec<P3>>(), st);
            for d in DISTS {
                disc2::<DVec2>("DVec2", p, d, st);
            }
        },
    ));
    v.push(fam(
        "every line string of up to 2 points of a 4x4 grid, 10 placements, 14 step lengths, every vector type",
        rule,
        seq_count(16, 0, 2) * 10,
        |i| MAPS[(i % 10) as usize].all(&grid_seq(i / 10, 4, 4, 0, 2)),
        |p: &Vec<P>, st| {
            nt(&p.iter().map(|p| (p.0, p.1, 0)).collect::<Vec<P3>>(), st);
            for d in DISTS {
                for_2d!(T, n, { disc2::<T>(n, p, d, st) });
            }
        },
    ));
    let g3 = |k: u64| ((k % 3) as i64, (k / 3 % 3) as i64, (k / 9) as i64);
    let k = t.pick(3, 4);
    v.push(fam(
        format!("every line string of up to {k} points of a 3x3x3 grid, 14 step lengths"),
        rule,
        seq_count(27, 0, k),
        move |i| {
            seq_decode(i, 27, 0, k)
                .iter()
                .map(|k| g3(*k))
                .collect::<Vec<P3>>()
        },
        |p: &Vec<P3>, st| {
            nt(p, st);
            for d in DISTS {
                disc3::<DVec3>("DVec3", p, d, st);
            }
        },
    ));
    v.push(fam(
        format!("every line string of up to 2 points of a 3x3x3 grid, {} placements, 14 step lengths, every vector type", MAPS3.len()),
        rule,
        seq_count(27, 0, 2) * MAPS3.len() as u64,
        move |i| {
            let m = &MAPS3[i as usize % MAPS3.len()];
            seq_decode(i / MAPS3.len() as u64, 27, 0, 2).iter().map(|k| map3(m, g3(*k))).collect::<Vec<P3>>()
        },
        |p: &Vec<P3>, st| {
            nt(p, st);
            for d in DISTS {
                for_3d!(T, n, { disc3::<T>(n, p, d, st) });
            }
        },
    ));
    v.push(fam_list(
        "long line strings, and very many steps",
        rule,
        {
            let mut l = long_lines();
            l.push((
                "a long way".into(),
                vec![(0, 0), (3_000, 4_000), (3_000, 4_000), (0, 1)],
            ));
            l.push((
                "a very long way".into(),
                vec![(0, 0), (9_000, 12_000), (-9_000, 12_000)],
            ));
            l
        },
        |(_, p): &(String, Vec<P>), st| {
            st.nontrivial += 1;
            for d in [Some(1), Some(7), Some(40), Some(1000), None] {
                disc2::<DVec2>("DVec2", p, d, st);
                disc2::<vector_traits::cgmath::Vector2<f64>>("cgmath f64", p, d, st);
                let q: Vec<P3> = p.iter().map(|p| (p.0, p.1, p.0 - p.1)).collect();
                disc3::<DVec3>("DVec3", &q, d, st);
            }
        },
    ));
    // the number of steps is the smallest one, however close the step length is to an even part
    v.push(fam(
        "step lengths next to an even part of a segment, 16 lengths, 24 parts, 4 directions, every vector type",
        "always",
        16 * 24 * 4,
        |i| ((i % 16) as i64 + 1, (i / 16 % 24) as i64 + 1, i / 384),
        |&(l, k, dir): &(i64, i64, u64), st| {
            st.nontrivial += 1;
            st.state(&(l, k, dir));
            let (x, y) = [(5, 0), (0, -5), (3, 4), (-4, 3)][dir as usize];
            let end = (l * x, l * y);
            for_2d!(T, n, {
                let small = std::mem::size_of::<<T as HasXY>::Scalar>() == 4;
                let exps: &[i32] = if small { &[-10, -16, -19] } else { &[-10, -19, -27, -30, -33, -40, -47] };
                for e in exps {
                    for (longer, want) in [(false, k + 1), (true, k)] {
                        let part = 5.0 * l as f64 / k as f64;
                        let d = part * if longer { 1.0 + 2f64.powi(*e) } else { 1.0 - 2f64.powi(*e) };
                        let v: Vec<T> = ms2(&[(0, 0), end]);
                        st.calls += 2;
                        let c = v.discretize(len(d)).take(100).count() as i64;
                        ensure!(st, c == want + 1, "{n}: {c} points on the way to {end:?} with steps of {d}, expected {}", want + 1);
                    }
                }
            });
            for_3d!(T, n, {
                let small = std::mem::size_of::<<T as HasXY>::Scalar>() == 4;
                let exps: &[i32] = if small { &[-10, -19] } else { &[-10, -19, -30, -40, -47] };
                for e in exps {
                    for (longer, want) in [(false, k + 1), (true, k)] {
                        let part = 5.0 * l as f64 / k as f64;
                        let d = part * if longer { 1.0 + 2f64.powi(*e) } else { 1.0 - 2f64.powi(*e) };
                        let v: Vec<T> = ms3(&[(0, 0, 0), [(end.0, 0, end.1), (0, end.0, end.1)][(k % 2) as usize]]);
                        st.calls += 1;
                        let c = v.discretize(len(d)).take(100).count() as i64;
                        ensure!(st, c == want + 1, "{n}: {c} points on the way to {end:?} in space with steps of {d}, expected {}", want + 1);
                    }
                }
            });
        },
    ));
    v
}

// ------------------------------------------------------------------ C16

/// A segment, a point off its line, two positions along the segment in eighths (0 to 8: start to end)
/// and the limit of the deviation.
#[derive(Clone, Debug)]
struct Arc {
    a: P,
    b: P,
    c: P,
    from: i64,
    to: i64,
    max: f64,
}
/// The arc in the frame of its segment: x along the segment, y away from it.
struct Frame {
    a: (f64, f64),
    d: (f64, f64),
    len: f64,
    rx: f64,
    ry: f64,
}
impl Frame {
    fn new(k: &Arc) -> Self {
        let d = ((k.b.0 - k.a.0) as f64, (k.b.1 - k.a.1) as f64);
        let len = (d.0 * d.0 + d.1 * d.1).sqrt();
        let q = ((k.c.0 - k.a.0) as f64, (k.c.1 - k.a.1) as f64);
        let d = (d.0 / len, d.1 / len);
        Frame {
            a: (k.a.0 as f64, k.a.1 as f64),
            d,
            len,
            rx: q.0 * d.0 + q.1 * d.1,
            ry: d.0 * q.1 - d.1 * q.0,
        }
    }
    fn y(&self, x: f64) -> f64 {
        ((x - self.rx) * (x - self.rx) + self.ry * self.ry) / (2.0 * self.ry)
    }
    fn out(&self, x: f64) -> (f64, f64) {
        let y = self.y(x);
        (
            self.a.0 + self.d.0 * x - self.d.1 * y,
            self.a.1 + self.d.1 * x + self.d.0 * y,
        )
    }
    fn x_of(&self, p: (f64, f64)) -> f64 {
        (p.0 - self.a.0) * self.d.0 + (p.1 - self.a.1) * self.d.1
    }
    fn y_of(&self, p: (f64, f64)) -> f64 {
        (p.1 - self.a.1) * self.d.0 - (p.0 - self.a.0) * self.d.1
    }
    /// how far the arc leaves its chord between two positions
    fn off(&self, x0: f64, x1: f64) -> f64 {
        let (dx, dy) = (x1 - x0, self.y(x1) - self.y(x0));
        if dx == 0.0 {
            return 0.0;
        }
        dx * dx / (8.0 * self.ry.abs()) * dx.abs() / (dx * dx + dy * dy).sqrt()
    }
    /// positions of the samples when an arc is divided where it is farthest from its chord, as long
    /// as that is more than `max`. Two positions where the decision is within rounding: both allowed.
    fn divide(
        &self,
        x0: f64,
        x1: f64,
        max: f64,
        depth: u32,
        sure: &mut Vec<f64>,
        maybe: &mut Vec<f64>,
    ) {
        let o = self.off(x0, x1);
        let m = (x0 + x1) / 2.0;
        if o > max * 1.0001 || (o > max * 0.9999 && depth > 0) {
            let (s, y) = if o > max * 1.0001 {
                (true, maybe)
            } else {
                (false, maybe)
            };
            if s {
                self.divide(x0, m, max, depth + 1, sure, y);
                sure.push(m);
                self.divide(m, x1, max, depth + 1, sure, y);
            } else {
                y.push(m);
            }
        } else if o > max * 0.9999 {
            maybe.push(m);
        }
    }
}

fn arc_samples(
    k: &Arc,
    g: &[(f64, f64)],
    start: (f64, f64),
    end: (f64, f64),
    t: f64,
    blurred: bool,
    st: &mut Local,
    n: &str,
) {
    let fr = Frame::new(k);
    ensure!(
        st,
        g.first() == Some(&start) && g.last() == Some(&end) && g.len() >= 2,
        "{n}: {k:?}: the ends are not kept: {g:?}"
    );
    if blurred {
        st.tag("too steep for the scalar type");
        return;
    }
    let (x0, x1) = (fr.len * k.from as f64 / 8.0, fr.len * k.to as f64 / 8.0);
    for p in g {
        let to_c = ((p.0 - k.c.0 as f64).powi(2) + (p.1 - k.c.1 as f64).powi(2)).sqrt();
        let to_l = fr.y_of(*p).abs();
        ensure!(
            st,
            (to_c - to_l).abs() <= t,
            "{n}: {k:?}: {p:?} is {to_c} from the point and {to_l} from the segment"
        );
    }
    let xs: Vec<f64> = g.iter().map(|p| fr.x_of(*p)).collect();
    for w in xs.windows(2) {
        ensure!(
            st,
            fr.off(w[0], w[1]) <= k.max * 1.0001 + t,
            "{n}: {k:?}: the arc is {} away from the samples",
            fr.off(w[0], w[1])
        );
        ensure!(
            st,
            (w[1] - w[0]) * (x1 - x0) >= -t,
            "{n}: {k:?}: the samples go back: {xs:?}"
        );
    }
    let (mut sure, mut maybe) = (Vec::new(), Vec::new());
    if x0 != x1 {
        fr.divide(x0, x1, k.max, 0, &mut sure, &mut maybe);
    }
    let inner = &xs[1..xs.len().max(2) - 1];
    let near = |v: &[f64], x: f64| v.iter().any(|s| (s - x).abs() <= t);
    ensure!(
        st,
        sure.iter().all(|s| near(inner, *s)),
        "{n}: {k:?}: positions {inner:?}, expected {sure:?}"
    );
    ensure!(
        st,
        inner.iter().all(|x| near(&sure, *x) || near(&maybe, *x)),
        "{n}: {k:?}: positions {inner:?}, more than the expected {sure:?}"
    );
    st.tag(match sure.len() {
        0 => "straight",
        1 => "two parts",
        2..=15 => "up to 16 parts",
        _ => "more parts",
    });
    if !sure.is_empty() {
        st.nontrivial += 1;
    }
}

fn arc<T: GenericVector2>(n: &str, k: &Arc, st: &mut Local) {
    let fr = Frame::new(k);
    if fr.ry == 0.0 {
        return;
    }
    st.state(&(sub(k.b, k.a), sub(k.c, k.a), k.from, k.to, k.max.to_bits()));
    let at = |e: i64| fr.out(fr.len * e as f64 / 8.0);
    let (s, e) = (at(k.from), at(k.to));
    let (sp, ep): (T, T) = (v2(s.0, s.1), v2(e.0, e.1));
    let arc = VoronoiParabolicArc::new(Line2::<T>::new(m2(k.a), m2(k.b)), m2(k.c), sp, ep);
    // how much rounding is magnified: the height of the arc, seen with the slope at its ends
    let w = fr.len.max((fr.rx - fr.len).abs()).max(fr.rx.abs());
    let size = [s.0, s.1, e.0, e.1]
        .iter()
        .fold(max_abs(&[k.a, k.b, k.c]) as f64, |m, x| m.max(x.abs()));
    let t = tol::<T::Scalar>(1) * (size + w) * (1.0 + w / fr.ry.abs()) * 4.0;
    // too steep for the scalar type: only the ends are compared
    let blurred = t > k.max / 4.0;
    let max = len::<T::Scalar>(k.max);
    st.calls += 3;
    let g: Vec<(f64, f64)> = arc.discretize_2d(max).into_iter().map(un2).collect();
    arc_samples(k, &g, un2(sp), un2(ep), t, blurred, st, n);
    let g3: Vec<(f64, f64, f64)> = arc.discretize_3d(max).into_iter().map(un3).collect();
    let flat: Vec<(f64, f64)> = g3.iter().map(|p| (p.0, p.1)).collect();
    arc_samples(k, &flat, un2(sp), un2(ep), t, blurred, st, n);
    let line: Vec<(f64, f64, f64)> = arc
        .discretize_3d_straight_line()
        .into_iter()
        .map(un3)
        .collect();
    ensure!(
        st,
        line.len() == 2 && (line[0].0, line[0].1) == un2(sp) && (line[1].0, line[1].1) == un2(ep),
        "{n}: {k:?}: the straight line is {line:?}"
    );
    if blurred {
        return;
    }
    // (beyond the ends of the segment the arc is no longer equally far from the segment itself)
    let over = (0..=8).contains(&k.from) && (0..=8).contains(&k.to);
    for p in g3.iter().chain(line.iter().filter(|_| over)) {
        let to_c = ((p.0 - k.c.0 as f64).powi(2) + (p.1 - k.c.1 as f64).powi(2)).sqrt();
        ensure!(
            st,
            (p.2 + to_c).abs() <= t,
            "{n}: {k:?}: {p:?} is {to_c} from the point"
        );
    }
}

fn c16(t: Tier) -> Vec<Box<dyn Family>> {
    let mut v: Vec<Box<dyn Family>> = Vec::new();
    let rule = "the arc is divided";
    let w = t.pick(4u64, 5);
    let n = w * w;
    let maxs = [4.0, 1.0, 0.3, 0.1, 0.01, 0.001];
    v.push(fam(
        format!("every segment and point of a {w}x{w} grid, 9 arcs, 6 limits"),
        rule,
        n * n * n * 9 * 6,
        move |i| {
            let (max, j) = (maxs[(i % 6) as usize], i / 6);
            let ends = [
                (0, 8),
                (8, 0),
                (0, 3),
                (5, 1),
                (2, 6),
                (7, 8),
                (4, 4),
                (-8, 16),
                (12, 9),
            ];
            let (from, to) = ends[(j % 9) as usize];
            let j = j / 9;
            Arc {
                a: grid(j % n, w),
                b: grid(j / n % n, w),
                c: grid(j / n / n, w),
                from,
                to,
                max,
            }
        },
        |k: &Arc, st| {
            if k.a != k.b {
                arc::<DVec2>("DVec2", k, st)
            }
        },
    ));
    v.push(fam(
        "every segment and point of a 3x3 grid in 10 placements, 4 arcs, 3 limits, every vector type",
        rule,
        9 * 9 * 9 * 10 * 4 * 3,
        move |i| {
            let (max, j) = ([1.0, 0.125, 0.05][(i % 3) as usize], i / 3);
            let (from, to) = [(0, 8), (8, 0), (1, 6), (5, 5)][(j % 4) as usize];
            let m = &MAPS[(j / 4 % 10) as usize];
            let j = j / 40;
            Arc { a: m.on(grid(j % 9, 3)), b: m.on(grid(j / 9 % 9, 3)), c: m.on(grid(j / 81, 3)), from, to, max }
        },
        |k: &Arc, st| {
            if k.a != k.b {
                for_2d!(T, n, { arc::<T>(n, k, st) })
            }
        },
    ));
    v.push(fam_list(
        "long arcs with up to some thousand parts",
        rule,
        {
            let mut l = Vec::new();
            for (b, c) in [((100, 0), (50, 10)), ((60, 80), (-10, 30)), ((-300, 0), (-20, 40)), ((0, 1000), (300, 300))] {
                for max in t.pick(&[0.01, 0.0001, 0.00001][..], &[0.01, 0.001, 0.0001, 0.00001, 0.000001]) {
                    for (from, to) in [(0, 8), (8, 0), (6, 2)] {
                        l.push(Arc { a: (0, 0), b, c, from, to, max: *max });
                    }
                }
            }
            l
        },
        |k: &Arc, st| arc::<DVec2>("DVec2", k, st),
    ));
    // nothing to follow: the ends alone are a correct answer
    v.push(fam(
        "arcs without an extent: the point is on the line of the segment, or the segment is a point",
        "always",
        9 * 9 * 9 * 4,
        |i| (grid(i % 9, 3), grid(i / 9 % 9, 3), grid(i / 81 % 9, 3), i / 729),
        |(a, b, c, e): &(P, P, P, u64), st| {
            if a != b && cross(*a, *b, *c) != 0 {
                return;
            }
            st.nontrivial += 1;
            for_2d!(T, n, {
                let d = sub(*b, *a);
                let up = (c.0 - d.1, c.1 + d.0);
                let (s, x) = [(*c, *c), (*c, up), (up, *c), (*a, *b)][*e as usize];
                let (s, x): (T, T) = (m2(s), m2(x));
                let arc = VoronoiParabolicArc::new(Line2::<T>::new(m2(*a), m2(*b)), m2(*c), s, x);
                st.calls += 3;
                let g: Vec<(f64, f64)> = arc.discretize_2d(len(0.1)).into_iter().map(un2).collect();
                ensure!(st, g.len() >= 2 && g[0] == un2(s) && g[g.len() - 1] == un2(x), "{n}: the ends are not kept: {g:?}");
                let g: Vec<(f64, f64)> = arc.discretize_3d(len(0.1)).into_iter().map(un3).map(|p| (p.0, p.1)).collect();
                ensure!(st, g.len() >= 2 && g[0] == un2(s) && g[g.len() - 1] == un2(x), "{n}: the ends are not kept in space: {g:?}");
            });
        },
    ));
    v
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C15",
            families: |t| with_digits(with_zeros(with_scales(c15, t, &["every vector type"], &C15_SCALES), c15, &["every vector type"]), c15, &["every vector type"]),
            bounds: "all line strings of up to 4 (thorough 5) points of a 4x4 grid and up to 3 (4) points of a 3x3x3 grid with 14 step lengths from 1/8 to infinity, up to 2 points in all placements for every vector type; long line strings, up to 80000 steps, step lengths next to an even division",
            assumptions: &["the step length is positive"],
        },
        Prop {
            id: "C16",
            families: |t| with_digits(with_zeros(with_scales(c16, t, &["every vector type"], &SCALES), c16, &["every vector type", "arcs without"]), c16, &["every vector type"]),
            bounds: "all segments and points of a 4x4 (thorough 5x5) grid with 9 arcs and 6 limits, of a 3x3 grid in 10 placements for every vector type; all arcs without an extent on a 3x3 grid",
            assumptions: &["the given ends are on the parabola, within rounding", "the limit is positive"],
        },
    ]
}
