//! C09 Ramer-Douglas-Peucker, C10 Visvalingam-Whyatt.
use crate::fw::*;
use crate::geo::*;
use crate::{ensure, for_2d, for_3d};
use linestring::linestring_2d::LineString2;
use linestring::linestring_3d::LineString3;
use linestring::prelude::{indexed_simplify_rdp_2d, indexed_simplify_rdp_3d};
use std::collections::{BTreeSet, HashMap};
use std::fmt::Debug;
use vector_traits::glam::{DVec2, DVec3, Vec2};
use vector_traits::{GenericVector2, GenericVector3};

fn sub3(a: P3, b: P3) -> P3 {
    (a.0 - b.0, a.1 - b.1, a.2 - b.2)
}
fn dot3(a: P3, b: P3) -> i64 {
    a.0 * b.0 + a.1 * b.1 + a.2 * b.2
}
fn cross3(a: P3, b: P3) -> P3 {
    (a.1 * b.2 - a.2 * b.1, a.2 * b.0 - a.0 * b.2, a.0 * b.1 - a.1 * b.0)
}
/// squared distance of p to the segment a-b, as a fraction
pub fn seg_dist(a: P3, b: P3, p: P3) -> (i64, i64) {
    let (ab, ap) = (sub3(b, a), sub3(p, a));
    let l = dot3(ab, ab);
    let t = dot3(ap, ab);
    if l == 0 || t <= 0 {
        (dot3(ap, ap), 1)
    } else if t >= l {
        let bp = sub3(p, b);
        (dot3(bp, bp), 1)
    } else {
        let c = cross3(ap, ab);
        (dot3(c, c), l)
    }
}
fn cmp_frac(a: (i64, i64), b: (i64, i64)) -> std::cmp::Ordering {
    (a.0 as i128 * b.1 as i128).cmp(&(b.0 as i128 * a.1 as i128))
}

/// tolerances in halves; None: unbounded
pub type Tol = Option<i64>;
fn tolf(t: Tol) -> f64 {
    t.map(|t| t as f64 / 2.0).unwrap_or(f64::INFINITY)
}

/// Reference model of RDP: the farthest point is any of those at the greatest distance. Decides
/// whether `out` is one of the outcomes; `key` tells outputs and inputs apart.
struct Rdp<'a, K: PartialEq> {
    p: &'a [P3],
    key: &'a [K],
    out: &'a [K],
    tol: Tol,
    memo: HashMap<(usize, usize, usize, usize), bool>,
    far: HashMap<(usize, usize), Vec<usize>>,
}

impl<K: PartialEq> Rdp<'_, K> {
    /// the candidates at which i..j is split; none when everything between is dropped
    fn split(&mut self, i: usize, j: usize) -> Vec<usize> {
        if let Some(v) = self.far.get(&(i, j)) {
            return v.clone();
        }
        let mut best = (-1, 1);
        let mut v = Vec::new();
        for m in i + 1..j {
            let d = seg_dist(self.p[i], self.p[j], self.p[m]);
            match cmp_frac(d, best) {
                std::cmp::Ordering::Greater => {
                    best = d;
                    v = vec![m];
                }
                std::cmp::Ordering::Equal => v.push(m),
                _ => (),
            }
        }
        if self.tol.is_none_or(|t| cmp_frac(best, (t * t, 4)).is_le()) {
            v.clear();
        }
        self.far.insert((i, j), v.clone());
        v
    }
    fn accept(&mut self, i: usize, j: usize, a: usize, b: usize) -> bool {
        if let Some(r) = self.memo.get(&(i, j, a, b)) {
            return *r;
        }
        let v = self.split(i, j);
        let r = if v.is_empty() {
            b == a + 1
        } else {
            v.iter()
                .any(|m| (a + 1..b).any(|c| self.out[c] == self.key[*m] && self.accept(i, *m, a, c) && self.accept(*m, j, c, b)))
        };
        self.memo.insert((i, j, a, b), r);
        r
    }
}

/// is `out` what RDP makes of `key` (with positions `p`)?
pub fn rdp_verdict<K: PartialEq + Debug>(p: &[P3], key: &[K], out: &[K], tol: Tol) -> Result<(), String> {
    let n = p.len();
    if n <= 2 {
        return if out == key {
            Ok(())
        } else {
            Err(format!("{out:?}: nothing can be left out of {n} points"))
        };
    }
    if out.len() < 2 || out[0] != key[0] || out[out.len() - 1] != key[n - 1] {
        return Err(format!("{out:?} does not keep the end points"));
    }
    let mut m = Rdp {
        p,
        key,
        out,
        tol,
        memo: HashMap::new(),
        far: HashMap::new(),
    };
    if m.accept(0, n - 1, 0, out.len() - 1) {
        Ok(())
    } else {
        Err(format!("{out:?} is not what the algorithm leaves at tolerance {}", tolf(tol)))
    }
}

fn flat(p: &[P]) -> Vec<P3> {
    p.iter().map(|p| (p.0, p.1, 0)).collect()
}

fn rdp2<T: GenericVector2>(n: &str, p: &[P], tols: &[Tol], st: &mut Local) {
    rdp2_at::<T>(n, p, tols, &|p| ms2(p), &|t| len(tolf(t)), st)
}
/// the points of the input that the points of the output are equal to
fn back<T: PartialEq, K: Copy>(v: &[T], key: &[K], r: &[T]) -> Option<Vec<K>> {
    r.iter().map(|x| v.iter().position(|y| y == x).map(|i| key[i])).collect()
}
fn rdp2_at<T: GenericVector2>(n: &str, p: &[P], tols: &[Tol], at: &dyn Fn(&[P]) -> Vec<T>, len: &dyn Fn(Tol) -> T::Scalar, st: &mut Local) {
    let v: Vec<T> = at(p);
    let q = flat(p);
    // the same line through a vertex table in another order, with unused vertices
    let m = p.len();
    let mut table: Vec<P> = vec![(-77, 13)];
    table.extend(p.iter().rev());
    table.push((50, 50));
    let idx: Vec<usize> = (0..m).map(|i| m - i).collect();
    let tv: Vec<T> = at(&table);
    for t in tols {
        st.calls += 2;
        let r = v.simplify_rdp(len(*t));
        match back(&v, p, &r) {
            None => st.fail(format!("{n}: {r:?} has points that are not in the input")),
            Some(o) => {
                if let Err(e) = rdp_verdict(&q, p, &o, *t) {
                    st.fail(format!("{n}: {e}"));
                }
                st.state(&(&o, m));
                st.tag(if o.len() < m { "points left out" } else { "all points kept" });
            }
        }
        let r = indexed_simplify_rdp_2d(&tv, &idx, len(*t));
        if let Err(e) = rdp_verdict(&q, &idx, &r, *t) {
            st.fail(format!("{n}, vertices {table:?} indices {idx:?}: {e}"));
        }
    }
}

fn rdp3<T: GenericVector3>(n: &str, p: &[P3], tols: &[Tol], st: &mut Local) {
    rdp3_at::<T>(n, p, tols, &|p| ms3(p), &|t| len(tolf(t)), st)
}
fn rdp3_at<T: GenericVector3>(n: &str, p: &[P3], tols: &[Tol], at: &dyn Fn(&[P3]) -> Vec<T>, len: &dyn Fn(Tol) -> T::Scalar, st: &mut Local) {
    let v: Vec<T> = at(p);
    let m = p.len();
    let mut table: Vec<P3> = vec![(-77, 13, 5)];
    table.extend(p.iter().rev());
    table.push((50, 50, 50));
    let idx: Vec<usize> = (0..m).map(|i| m - i).collect();
    let tv: Vec<T> = at(&table);
    for t in tols {
        st.calls += 2;
        let r = v.simplify_rdp(len(*t));
        match back(&v, p, &r) {
            None => st.fail(format!("{n}: {r:?} has points that are not in the input")),
            Some(o) => {
                if let Err(e) = rdp_verdict(p, p, &o, *t) {
                    st.fail(format!("{n}: {e}"));
                }
                st.state(&(&o, m));
                st.tag(if o.len() < m { "points left out" } else { "all points kept" });
            }
        }
        let r = indexed_simplify_rdp_3d(&tv, &idx, len(*t));
        if let Err(e) = rdp_verdict(p, &idx, &r, *t) {
            st.fail(format!("{n}, vertices {table:?} indices {idx:?}: {e}"));
        }
    }
}

const TOLS: [Tol; 12] = [
    Some(0),
    Some(1),
    Some(2),
    Some(3),
    Some(4),
    Some(5),
    Some(6),
    Some(8),
    Some(20),
    Some(40),
    Some(200),
    None,
];

fn grid3(i: u64, w: u64, h: u64) -> P3 {
    ((i % w) as i64, (i / w % h) as i64, (i / w / h) as i64)
}
fn grid3_seq(i: u64, w: u64, h: u64, d: u64, lo: u32, hi: u32) -> Vec<P3> {
    seq_decode(i, w * h * d, lo, hi).into_iter().map(|s| grid3(s, w, h)).collect()
}
/// placements in space
pub const MAPS3: [[i64; 12]; 5] = [
    [1, 0, 0, 0, 1, 0, 0, 0, 1, 0, 0, 0],
    [0, 0, 1, 1, 0, 0, 0, 1, 0, -1, -1, -1],
    [-2, 0, 0, 0, 2, 0, 0, 0, -2, 9, -9, 3],
    [10, 0, 0, 0, 10, 0, 0, 0, 1, 300, -300, 7],
    [1, 1, 0, 0, 1, 1, 1, 0, 1, 0, 5, -5],
];
pub fn map3(m: &[i64; 12], p: P3) -> P3 {
    (
        m[0] * p.0 + m[1] * p.1 + m[2] * p.2 + m[9],
        m[3] * p.0 + m[4] * p.1 + m[5] * p.2 + m[10],
        m[6] * p.0 + m[7] * p.1 + m[8] * p.2 + m[11],
    )
}

/// long line strings
pub fn long_lines() -> Vec<(String, Vec<P>)> {
    let mut v: Vec<(String, Vec<P>)> = Vec::new();
    for n in [12i64, 33, 80, 150, 257, 600] {
        v.push((
            format!("wave of {n} points"),
            (0..n).map(|i| (5 * i, (i * i * 7919 + i * 104729) % 1009 - i % 5)).collect(),
        ));
        if n > 150 {
            continue;
        }
        v.push((format!("{n} points on a straight line"), (0..n).map(|i| (i, 2 * i)).collect()));
        v.push((format!("saw of {n} points"), (0..n).map(|i| (i, i % 2)).collect()));
        v.push((
            format!("growing saw of {n} points"),
            (0..n).map(|i| (3 * i, if i % 2 == 0 { i } else { -i })).collect(),
        ));
        v.push((format!("there and back, {n} points"), (0..n).map(|i| (i.min(n - 1 - i), 0)).collect()));
        v.push((
            format!("parabola of {n} points"),
            (0..n).map(|i| (7 * (i - n / 2), (i - n / 2) * (i - n / 2))).collect(),
        ));
        v.push((format!("cubic of {n} points"), (0..n).map(|i| (11 * i, i * i * i % 97 - i)).collect()));
        v.push((format!("square spiral of {n} points"), {
            let mut p = vec![(0, 0)];
            let d = [(1, 0), (0, 1), (-1, 0), (0, -1)];
            for i in 0..n - 1 {
                let l = p[p.len() - 1];
                let k = i / 2 + 1;
                let (dx, dy) = d[(i % 4) as usize];
                p.push((l.0 + dx * k, l.1 + dy * k));
            }
            p
        }));
        v.push((format!("staircase of {n} points"), (0..n).map(|i| ((i + 1) / 2 * 3, i / 2)).collect()));
        if n <= 33 {
            v.push((format!("closed polygon of {n} corners"), close(&lattice_polygon(n as usize))));
            v.push((format!("polygon of {n} corners, open"), lattice_polygon(n as usize)));
        }
    }
    v
}

fn c09(t: Tier) -> Vec<Box<dyn Family>> {
    let mut v: Vec<Box<dyn Family>> = Vec::new();
    let rule = "three or more points";
    let nm = FAR_MAPS.len() as u64;
    let nt = |n: usize, st: &mut Local| {
        if n > 2 {
            st.nontrivial += 1;
        }
    };
    v.push(fam(
        "2D: every line string of up to 4 points of a 3x3 grid under all placements, vector types and tolerances",
        rule,
        seq_count(9, 0, 4) * nm,
        move |i| FAR_MAPS[(i % nm) as usize].all(&grid_seq(i / nm, 3, 3, 0, 4)),
        move |p: &Vec<P>, st| {
            nt(p.len(), st);
            for_2d!(T, n, { rdp2::<T>(n, p, &TOLS, st) });
        },
    ));
    let hi = t.pick(6, 7);
    v.push(fam(
        format!("2D: every line string of 5 to {hi} points of a 3x3 grid, tolerances 0 to 2"),
        rule,
        seq_count(9, 5, hi),
        move |i| grid_seq(i, 3, 3, 5, hi),
        move |p: &Vec<P>, st| {
            nt(p.len(), st);
            rdp2::<DVec2>("DVec2", p, &TOLS[..5], st);
            rdp2::<Vec2>("Vec2", p, &TOLS[1..4], st);
        },
    ));
    let hi = t.pick(5, 6);
    v.push(fam(
        format!("2D: every line string of {hi} points of a 4x4 grid"),
        rule,
        seq_count(16, hi, hi),
        move |i| grid_seq(i, 4, 4, hi, hi),
        move |p: &Vec<P>, st| {
            nt(p.len(), st);
            rdp2::<DVec2>("DVec2", p, &TOLS[..8], st);
        },
    ));
    let k = t.pick(10, 12);
    v.push(fam(
        format!("2D: every height profile over {{0,1,2}} of 5 to {k} points"),
        rule,
        seq_count(3, 5, k),
        move |i| {
            seq_decode(i, 3, 5, k)
                .iter()
                .enumerate()
                .map(|(x, y)| (x as i64, *y as i64))
                .collect::<Vec<P>>()
        },
        move |p: &Vec<P>, st| {
            nt(p.len(), st);
            rdp2::<DVec2>("DVec2", p, &TOLS[..5], st);
            rdp2::<Vec2>("Vec2", p, &TOLS[..5], st);
        },
    ));
    let tables: Vec<Vec<P>> = vec![
        vec![],
        vec![(1, 1)],
        vec![(0, 0), (3, 1)],
        vec![(0, 0), (2, 1), (4, 0)],
        vec![(0, 0), (4, 0), (2, 2), (6, 0)],
        vec![(1, 0), (0, 1), (2, 2), (1, 1), (1, 0)],
    ];
    let hi = t.pick(6, 8);
    let mut l: Vec<(Vec<P>, Vec<usize>)> = Vec::new();
    for tb in &tables {
        let a = tb.len() as u64;
        let n = if a == 0 { 1 } else { seq_count(a, 0, hi) };
        for i in 0..n {
            l.push((
                tb.clone(),
                if a == 0 {
                    vec![]
                } else {
                    seq_decode(i, a, 0, hi).iter().map(|x| *x as usize).collect()
                },
            ));
        }
    }
    v.push(fam_list(
        format!("2D and 3D: every index list of up to {hi} entries into six vertex tables of 0 to 5 vertices"),
        "three or more indices",
        l,
        move |(tb, ix): &(Vec<P>, Vec<usize>), st| {
            nt(ix.len(), st);
            let p: Vec<P3> = ix.iter().map(|i| (tb[*i].0, tb[*i].1, 0)).collect();
            for tol in &TOLS[..6] {
                st.calls += 2;
                let r = indexed_simplify_rdp_2d(&ms2::<DVec2>(tb), ix, tolf(*tol));
                if let Err(e) = rdp_verdict(&p, ix, &r, *tol) {
                    st.fail(format!("2D: {e}"));
                }
                let q: Vec<P3> = tb.iter().map(|p| (p.1, 5, p.0)).collect();
                let r = indexed_simplify_rdp_3d(&ms3::<DVec3>(&q), ix, tolf(*tol));
                if let Err(e) = rdp_verdict(&p, ix, &r, *tol) {
                    st.fail(format!("3D: {e}"));
                }
                st.state(&(ix, &r));
            }
        },
    ));
    v.push(fam(
        "3D: every line string of up to 4 points of a 2x2x2 grid under all placements, vector types and tolerances",
        rule,
        seq_count(8, 0, 4) * 5,
        |i| {
            grid3_seq(i / 5, 2, 2, 2, 0, 4)
                .iter()
                .map(|p| map3(&MAPS3[(i % 5) as usize], *p))
                .collect::<Vec<P3>>()
        },
        move |p: &Vec<P3>, st| {
            nt(p.len(), st);
            for_3d!(T, n, { rdp3::<T>(n, p, &TOLS, st) });
        },
    ));
    v.push(fam(
        "3D: every line string of 4 points of a 3x2x2 grid",
        rule,
        seq_count(12, 4, 4),
        |i| grid3_seq(i, 3, 2, 2, 4, 4),
        move |p: &Vec<P3>, st| {
            nt(p.len(), st);
            for_3d!(T, n, { rdp3::<T>(n, p, &TOLS[..6], st) });
        },
    ));
    let hi = t.pick(6, 7);
    v.push(fam(
        format!("3D: every line string of {hi} points of a 2x2x2 grid"),
        rule,
        seq_count(8, hi, hi),
        move |i| grid3_seq(i, 2, 2, 2, hi, hi),
        move |p: &Vec<P3>, st| {
            nt(p.len(), st);
            rdp3::<DVec3>("DVec3", p, &TOLS[..5], st);
        },
    ));
    let k = t.pick(8, 10);
    v.push(fam(
        format!("3D: every profile over the corners of a square of 5 to {k} points"),
        rule,
        seq_count(4, 5, k),
        move |i| {
            seq_decode(i, 4, 5, k)
                .iter()
                .enumerate()
                .map(|(x, y)| ((*y / 2) as i64, x as i64, (*y % 2) as i64))
                .collect::<Vec<P3>>()
        },
        move |p: &Vec<P3>, st| {
            nt(p.len(), st);
            rdp3::<DVec3>("DVec3", p, &TOLS[..4], st);
        },
    ));
    let hi = t.pick(4, 5);
    v.push(fam(
        format!("coordinates that are rounded: every line string of 3 to {hi} points of a 3x3 grid with 6 steps that can't be represented, in 3 directions and 3 positions, and of 3 to {hi} points of a 2x2x2 grid"),
        rule,
        (seq_count(9, 3, hi) + seq_count(8, 3, hi)) * 54,
        move |i| {
            let g = RoundedGrid { step: i % 6, dir: [0, 1, 4][(i / 6 % 3) as usize], at: i / 18 % 3 };
            let (k, flat) = (i / 54, seq_count(9, 3, hi));
            if k < flat {
                (g, grid_seq(k, 3, 3, 3, hi).iter().map(|p| (p.0, p.1, 7)).collect::<Vec<P3>>())
            } else {
                (g, grid3_seq(k - flat, 2, 2, 2, 3, hi))
            }
        },
        move |(g, p): &(RoundedGrid, Vec<P3>), st| {
            nt(p.len(), st);
            // a bit more than the halves of the grid, which no distance comes close to
            let tols = [Some(1), Some(2), Some(3)];
            let (o, e) = (g.on((0, 0)), g.on((1, 0)));
            let k = (e.0 - o.0).hypot(e.1 - o.1);
            let tol = |t: Tol| (tolf(t) + 0.01) * k;
            let z = |p: P3| p.2 as f64 * k + o.0;
            let fine = (g.step, g.at) == (1, 2);
            if p[0].2 == 7 {
                let q: Vec<P> = p.iter().map(|p| (p.0, p.1)).collect();
                fn at<T: GenericVector2>(g: &RoundedGrid, p: &[P]) -> Vec<T> {
                    p.iter().map(|p| g.on(*p)).map(|p| T::new_2d(sc(p.0), sc(p.1))).collect()
                }
                rdp2_at::<DVec2>("DVec2", &q, &tols, &|p| at(g, p), &tol, st);
                if !fine {
                    rdp2_at::<Vec2>("Vec2", &q, &tols, &|p| at(g, p), &|t| tol(t) as f32, st);
                }
            } else {
                rdp3_at::<DVec3>("DVec3", p, &tols, &|p| p.iter().map(|p| (g.on((p.0, p.1)), z(*p))).map(|((x, y), z)| DVec3::new(x, y, z)).collect(), &tol, st);
            }
        },
    ));
    v.push(fam_list(
        "long line strings in the plane and in space, all tolerances",
        rule,
        long_lines(),
        move |(_, p): &(String, Vec<P>), st| {
            nt(p.len(), st);
            rdp2::<DVec2>("DVec2", p, &TOLS, st);
            for lift in 0..3 {
                let q: Vec<P3> = p
                    .iter()
                    .enumerate()
                    .map(|(i, p)| match lift {
                        0 => (p.0, p.1, 0),
                        1 => (3, p.0, p.1),
                        _ => (p.0, i as i64 % 3, p.1),
                    })
                    .collect();
                rdp3::<DVec3>("DVec3", &q, &TOLS, st);
            }
        },
    ));
    // lines of many points, on a thread with the usual stack
    let n = t.pick(20000i64, 60000);
    let mut l = Vec::new();
    for (d, what) in ["in the plane", "in the plane, indexed", "in space", "in space, indexed"].iter().enumerate() {
        for (s, shape) in ["saw", "saw backwards", "straight line", "stairs"].iter().enumerate() {
            l.push((format!("{shape} of {n} points {what}"), d, s));
        }
    }
    v.push(fam_list("very long line strings", rule, l, move |(_, d, s): &(String, usize, usize), st| {
        st.nontrivial += 1;
        st.calls += 1;
        let p: Vec<P> = (0..n)
            .map(|k| match *s {
                0 => (k, k % 2),
                1 => (-k, k % 2),
                2 => (k, 3 * k),
                _ => ((k + 1) / 2, k / 2),
            })
            .collect();
        // the saw keeps every point at half its height; the others are within the tolerance of a
        // straight line
        let (tol, all) = if *s < 2 { (0.5, true) } else { (1.0, false) };
        let idx: Vec<usize> = (0..n as usize).collect();
        let d = *d;
        let r: Vec<P> = small_stack(|| match d {
            0 => ints2(&ms2::<DVec2>(&p).simplify_rdp(tol)).unwrap_or_default(),
            1 => indexed_simplify_rdp_2d(&ms2::<DVec2>(&p), &idx, tol).iter().map(|i| p[*i]).collect(),
            2 => {
                let q: Vec<P3> = p.iter().map(|p| (p.0, 3, p.1)).collect();
                ms3::<DVec3>(&q).simplify_rdp(tol).iter().map(|x| int3(*x).map_or((-1, -1), |x| (x.0, x.2))).collect()
            }
            _ => {
                let q: Vec<P3> = p.iter().map(|p| (p.1, p.0, -5)).collect();
                indexed_simplify_rdp_3d(&ms3::<DVec3>(&q), &idx, tol).iter().map(|i| p[*i]).collect()
            }
        });
        let e = if all { p.clone() } else { vec![p[0], p[p.len() - 1]] };
        ensure!(st, r == e, "{} points are left, expected {}", r.len(), e.len());
        st.state(&(r.len(), d));
    }));
    v.push(fam_list("a line of more than 65536 points with two spikes, in the plane and in space, with and without an index list", rule, (0..8usize).collect(), move |k: &usize, st| {
        st.nontrivial += 1;
        st.calls += 1;
        let (d, p) = (k / 2, spiked(70_000));
        let want: Vec<P> = KEPT.iter().map(|x| p[*x as usize]).collect();
        let (p, want) = if k % 2 == 1 { (p.into_iter().rev().collect::<Vec<P>>(), want.into_iter().rev().collect()) } else { (p, want) };
        let r: Vec<P> = small_stack(|| simplified(d, &p, 0.25));
        ensure!(st, r == want, "variant {k}: {} points are left, expected {want:?}", r.len());
        st.state(k);
    }));
    v
}

/// a straight line of 70000 points with a spike in the middle and one near the end, and the points that are
/// to be kept
const SPIKES: [(i64, i64); 2] = [(32_768, -3000), (66_000, 1000)];
const KEPT: [i64; 8] = [0, 32_767, 32_768, 32_769, 65_999, 66_000, 66_001, 69_999];
fn spiked(n: i64) -> Vec<P> {
    (0..n).map(|x| (x, SPIKES.iter().find(|s| s.0 == x).map_or(0, |s| s.1))).collect()
}
/// `what`: a 2d or 3d line string or its indexed form
fn simplified(d: usize, p: &[P], tol: f64) -> Vec<P> {
    // the index list names the points of a mirrored copy
    let n = p.len();
    let rev: Vec<P> = p.iter().rev().copied().collect();
    let idx: Vec<usize> = (0..n).rev().collect();
    match d {
        0 => ints2(&ms2::<DVec2>(p).simplify_rdp(tol)).unwrap_or_default(),
        1 => indexed_simplify_rdp_2d(&ms2::<DVec2>(&rev), &idx, tol).iter().map(|i| rev[*i]).collect(),
        2 => ms3::<DVec3>(&p.iter().map(|p| (3, p.1, p.0)).collect::<Vec<P3>>()).simplify_rdp(tol).iter().map(|x| int3(*x).map_or((-1, -1), |x| (x.2, x.1))).collect(),
        _ => indexed_simplify_rdp_3d(&ms3::<DVec3>(&rev.iter().map(|p| (p.1, p.0, -5)).collect::<Vec<P3>>()), &idx, tol).iter().map(|i| rev[*i]).collect(),
    }
}

// ------------------------------------------------------------------ Visvalingam-Whyatt

/// the doubled area of a triangle, squared
fn area(a: P3, b: P3, c: P3) -> i128 {
    let x = cross3(sub3(b, a), sub3(c, a));
    x.0 as i128 * x.0 as i128 + x.1 as i128 * x.1 as i128 + x.2 as i128 * x.2 as i128
}

type Kept = Vec<u16>;
/// All states (points that are still there, without the end points) after 0, 1, 2, ... deletions,
/// with every choice among points of the smallest area. None when there are too many.
fn vw_model(p: &[P3], closed: bool, floor: Option<usize>) -> Option<Vec<BTreeSet<Kept>>> {
    let n = p.len();
    if n <= 2 {
        return Some(vec![BTreeSet::new()]);
    }
    // a closed line is continued to its first point after the repeated one
    let mut q = p.to_vec();
    if closed {
        q.push(p[0]);
    }
    let last = q.len() - 1;
    let inner: Kept = (1..last as u16).collect();
    let mut levels = vec![BTreeSet::from([inner])];
    for _ in 0..n {
        let mut next = BTreeSet::new();
        for s in &levels[levels.len() - 1] {
            if s.is_empty() || floor == Some(s.len()) {
                next.insert(s.clone());
                continue;
            }
            let at = |k: usize| -> usize { s[k] as usize };
            let areas: Vec<i128> = (0..s.len())
                .map(|k| {
                    let a = if k == 0 { 0 } else { at(k - 1) };
                    let c = if k + 1 == s.len() { last } else { at(k + 1) };
                    area(q[a], q[at(k)], q[c])
                })
                .collect();
            let m = *areas.iter().min().unwrap();
            for (k, a) in areas.iter().enumerate() {
                if *a == m {
                    let mut t = s.clone();
                    t.remove(k);
                    next.insert(t);
                }
            }
        }
        if next.len() > 5000 {
            return None;
        }
        levels.push(next);
    }
    Some(levels)
}

/// Can `k` deletions lead to `out`? Used when the states are too many to list them all: only points
/// that are not in `out` are deleted on the way. None when the points are not distinct, or when no
/// way is found within the given number of steps.
fn vw_reach(p: &[P3], closed: bool, floor: Option<usize>, k: usize, out: &[P3]) -> Option<bool> {
    let mut at: HashMap<P3, u16> = HashMap::new();
    let n = p.len();
    let m = if closed { n - 1 } else { n };
    for (i, x) in p[..m].iter().enumerate() {
        if at.insert(*x, i as u16).is_some() {
            return None;
        }
    }
    // the wanted inner points
    let mut want: Kept = Vec::new();
    for x in &out[1..] {
        let Some(i) = at.get(x) else { return Some(false) };
        want.push(if closed && *i == 0 { n as u16 - 1 } else { *i });
    }
    if !closed && want.pop() != Some(n as u16 - 1) {
        return Some(false);
    }
    let mut q = p.to_vec();
    if closed {
        q.push(p[0]);
    }
    let last = q.len() - 1;
    if out[0] != p[0] || want.windows(2).any(|w| w[0] >= w[1]) || want.iter().any(|i| *i == 0 || *i as usize >= last) {
        return Some(false);
    }
    let inner = last - 1;
    let fl = floor.unwrap_or(0).min(inner);
    if want.len() != inner.saturating_sub(k).max(fl) {
        return Some(false);
    }
    let keep: BTreeSet<u16> = want.iter().copied().collect();
    let mut seen: BTreeSet<Kept> = BTreeSet::new();
    let mut todo: Vec<Kept> = vec![(1..last as u16).collect()];
    let mut steps = 0;
    while let Some(s) = todo.pop() {
        if s.len() == want.len() {
            return Some(true);
        }
        steps += 1;
        if steps > 20000 {
            return None;
        }
        let areas: Vec<i128> = (0..s.len())
            .map(|k| {
                let a = if k == 0 { 0 } else { s[k - 1] as usize };
                let c = if k + 1 == s.len() { last } else { s[k + 1] as usize };
                area(q[a], q[s[k] as usize], q[c])
            })
            .collect();
        let m = *areas.iter().min().unwrap();
        for (k, a) in areas.iter().enumerate() {
            if *a == m && !keep.contains(&s[k]) {
                let mut t = s.clone();
                t.remove(k);
                if seen.insert(t.clone()) {
                    todo.push(t);
                }
            }
        }
    }
    Some(false)
}

fn vw_outcomes<K: Copy + Ord>(lv: &[BTreeSet<Kept>], k: usize, p: &[K], closed: bool) -> BTreeSet<Vec<K>> {
    lv[k.min(lv.len() - 1)]
        .iter()
        .map(|s| {
            let mut o = vec![p[0]];
            o.extend(s.iter().map(|i| p[*i as usize]));
            if !closed {
                o.push(p[p.len() - 1]);
            }
            o
        })
        .collect()
}

fn ks(n: usize) -> Vec<usize> {
    if n <= 12 {
        (0..=n + 1).collect()
    } else {
        vec![0, 1, 2, 3, n / 3, n / 2, n - 4, n - 3, n - 2, n, usize::MAX]
    }
}

fn vw2<T: GenericVector2>(n: &str, p: &[P], st: &mut Local) {
    vw2_at::<T>(n, p, ms2(p), st)
}
fn vw2_at<T: GenericVector2>(n: &str, p: &[P], v: Vec<T>, st: &mut Local) {
    let closed = p.len() > 2 && p[0] == p[p.len() - 1];
    let lv = vw_model(&flat(p), closed, Some(2));
    for k in ks(p.len()) {
        st.calls += 1;
        ahash::mc_set_seed(k as u64 % 3);
        let r = v.simplify_vw(k);
        ahash::mc_set_seed(0);
        let Some(o) = back(&v, p, &r) else {
            st.fail(format!("{n}: {r:?} has points that are not in the input"));
            continue;
        };
        if p.len() <= 2 {
            ensure!(st, o == p, "{n}: {o:?}: nothing can be deleted");
            continue;
        }
        let Some(lv) = &lv else {
            match vw_reach(&flat(p), closed, Some(2), k, &flat(&o)) {
                None => st.tag("left out: too many ties"),
                Some(true) => st.tag("one of very many outcomes"),
                Some(false) => st.fail(format!("{n}: {o:?} after {k} deletions, which no order of deletions leads to")),
            }
            continue;
        };
        let w = vw_outcomes(lv, k, p, closed);
        ensure!(st, w.contains(&o), "{n}: {o:?} after {k} deletions, expected one of {w:?}");
        st.tag(if w.len() > 1 { "several outcomes possible" } else { "one outcome possible" });
        st.state(&(k, &o));
    }
}

fn vw3<T: GenericVector3>(n: &str, p: &[P3], st: &mut Local) {
    vw3_at::<T>(n, p, ms3(p), st)
}
fn vw3_at<T: GenericVector3>(n: &str, p: &[P3], v: Vec<T>, st: &mut Local) {
    let lv = vw_model(p, false, None);
    for k in ks(p.len()) {
        st.calls += 1;
        ahash::mc_set_seed(k as u64 % 3);
        let r = v.simplify_vw(k);
        ahash::mc_set_seed(0);
        let Some(o) = back(&v, p, &r) else {
            st.fail(format!("{n}: {r:?} has points that are not in the input"));
            continue;
        };
        if p.len() <= 2 {
            ensure!(st, o == p, "{n}: {o:?}: nothing can be deleted");
            continue;
        }
        let Some(lv) = &lv else {
            match vw_reach(p, false, None, k, &o) {
                None => st.tag("left out: too many ties"),
                Some(true) => st.tag("one of very many outcomes"),
                Some(false) => {
                    let mut full = o.clone();
                    full.push(p[p.len() - 1]);
                    match vw_reach(p, false, None, k, &full) {
                        None => st.tag("left out: too many ties"),
                        Some(true) => {
                            st.fail_key("vw3d/last-point-lost", format!("{n}: {o:?} after {k} deletions, the last point is missing"))
                        }
                        Some(false) => st.fail(format!("{n}: {o:?} after {k} deletions, which no order of deletions leads to")),
                    }
                }
            }
            continue;
        };
        let w = vw_outcomes(lv, k, p, false);
        st.state(&(k, &o));
        if w.contains(&o) {
            continue;
        }
        if vw_outcomes(lv, k, p, true).contains(&o) {
            // exactly the right points, without the last one
            st.fail_key("vw3d/last-point-lost", format!("{n}: {o:?} after {k} deletions, the last point is missing"));
        } else {
            st.fail(format!("{n}: {o:?} after {k} deletions, expected one of {w:?}"));
        }
    }
}

fn c10(t: Tier) -> Vec<Box<dyn Family>> {
    let mut v: Vec<Box<dyn Family>> = Vec::new();
    let rule = "three or more points";
    let nm = FAR_MAPS.len() as u64;
    let nt = |n: usize, st: &mut Local| {
        if n > 2 {
            st.nontrivial += 1;
        }
    };
    v.push(fam(
        "2D: every line string of up to 4 points of a 3x3 grid under all placements and vector types, all deletion counts",
        rule,
        seq_count(9, 0, 4) * nm,
        move |i| FAR_MAPS[(i % nm) as usize].all(&grid_seq(i / nm, 3, 3, 0, 4)),
        move |p: &Vec<P>, st| {
            nt(p.len(), st);
            for_2d!(T, n, { vw2::<T>(n, p, st) });
        },
    ));
    let hi = t.pick(6, 7);
    v.push(fam(
        format!("2D: every line string of 5 to {hi} points of a 3x3 grid, also closed"),
        rule,
        seq_count(9, 5, hi) * 2,
        move |i| {
            let p = grid_seq(i / 2, 3, 3, 5, hi);
            if i % 2 == 0 {
                p
            } else {
                close(&p)
            }
        },
        move |p: &Vec<P>, st| {
            nt(p.len(), st);
            vw2::<DVec2>("DVec2", p, st);
        },
    ));
    let hi = t.pick(4, 5);
    v.push(fam(
        format!("2D: every line string of {hi} points of a 4x4 grid, also closed"),
        rule,
        seq_count(16, hi, hi) * 2,
        move |i| {
            let p = grid_seq(i / 2, 4, 4, hi, hi);
            if i % 2 == 0 {
                p
            } else {
                close(&p)
            }
        },
        move |p: &Vec<P>, st| {
            nt(p.len(), st);
            vw2::<DVec2>("DVec2", p, st);
        },
    ));
    let k = t.pick(8, 9);
    v.push(fam(
        format!("2D: every height profile over {{0,1,3,7}} of 6 to {k} points, with uneven steps, also closed"),
        rule,
        seq_count(4, 6, k) * 2,
        move |i| {
            let h = [0, 1, 3, 7];
            let mut p: Vec<P> = seq_decode(i / 2, 4, 6, k)
                .iter()
                .enumerate()
                .map(|(x, y)| ((x * x + x) as i64, h[*y as usize]))
                .collect();
            if i % 2 == 1 {
                p.push(p[0]);
            }
            p
        },
        move |p: &Vec<P>, st| {
            nt(p.len(), st);
            vw2::<DVec2>("DVec2", p, st);
        },
    ));
    v.push(fam(
        "3D: every line string of up to 4 points of a 2x2x2 grid under all placements and vector types",
        rule,
        seq_count(8, 0, 4) * 5,
        |i| {
            grid3_seq(i / 5, 2, 2, 2, 0, 4)
                .iter()
                .map(|p| map3(&MAPS3[(i % 5) as usize], *p))
                .collect::<Vec<P3>>()
        },
        move |p: &Vec<P3>, st| {
            nt(p.len(), st);
            for_3d!(T, n, { vw3::<T>(n, p, st) });
        },
    ));
    let hi = t.pick(6, 7);
    v.push(fam(
        format!("3D: every line string of 5 to {hi} points of a 2x2x2 grid"),
        rule,
        seq_count(8, 5, hi),
        move |i| grid3_seq(i, 2, 2, 2, 5, hi),
        move |p: &Vec<P3>, st| {
            nt(p.len(), st);
            vw3::<DVec3>("DVec3", p, st);
        },
    ));
    v.push(fam(
        "3D: every line string of 4 points of a 3x2x2 grid",
        rule,
        seq_count(12, 4, 4),
        |i| grid3_seq(i, 3, 2, 2, 4, 4),
        move |p: &Vec<P3>, st| {
            nt(p.len(), st);
            vw3::<DVec3>("DVec3", p, st);
        },
    ));
    let k = t.pick(8, 9);
    v.push(fam(
        format!("3D: every profile over four uneven positions of 6 to {k} points, with uneven steps"),
        rule,
        seq_count(4, 6, k),
        move |i| {
            let h = [(0, 0), (1, 5), (4, 1), (7, 6)];
            seq_decode(i, 4, 6, k)
                .iter()
                .enumerate()
                .map(|(x, y)| (h[*y as usize].0, (x * x + x) as i64, h[*y as usize].1))
                .collect::<Vec<P3>>()
        },
        move |p: &Vec<P3>, st| {
            nt(p.len(), st);
            vw3::<DVec3>("DVec3", p, st);
        },
    ));
    let k = t.pick(7, 9);
    v.push(fam(
        format!("areas that hardly differ: every profile of 5 to {k} points over 4 heights, three of which are nearly equal, in the plane, also closed, and in space"),
        rule,
        seq_count(4, 5, k) * 3,
        move |i| (seq_decode(i / 3, 4, 5, k), i % 3),
        move |(c, kind): &(Vec<u64>, u64), st| {
            nt(c.len(), st);
            let z = |x: usize| (x * 1000 + x * x % 3) as i64;
            if *kind < 2 {
                let h = [0, 1_000_000, 1_000_001, 1_000_003];
                let mut p: Vec<P> = c.iter().enumerate().map(|(x, y)| (z(x), h[*y as usize])).collect();
                if *kind == 1 {
                    p.push(p[0]);
                }
                vw2::<DVec2>("DVec2", &p, st);
                vw2::<vector_traits::cgmath::Vector2<f64>>("cgmath f64", &p, st);
            } else {
                let h = [(0, 0), (3000, 1), (3001, 0), (3000, 3)];
                let p: Vec<P3> = c.iter().enumerate().map(|(x, y)| (h[*y as usize].0, h[*y as usize].1, z(x) / 3)).collect();
                vw3::<DVec3>("DVec3", &p, st);
                vw3::<vector_traits::cgmath::Vector3<f64>>("cgmath f64", &p, st);
            }
        },
    ));
    let hi = t.pick(4, 5);
    v.push(fam(
        format!("coordinates that are rounded: every line string of 3 to {hi} points of a 3x3 grid, open and closed, with 6 steps that can't be represented, in 6 directions and 3 positions, and of 3 to {hi} points of a 2x2x2 grid"),
        rule,
        (seq_count(9, 3, hi) * 2 + seq_count(8, 3, hi)) * 108,
        move |i| {
            let g = RoundedGrid::nth(i % 108);
            let (k, flat) = (i / 108, seq_count(9, 3, hi) * 2);
            if k < flat {
                let p = grid_seq(k / 2, 3, 3, 3, hi);
                let p = if k % 2 == 0 { p } else { close(&p) };
                (g, p.iter().map(|p| (p.0, p.1, 7)).collect::<Vec<P3>>())
            } else {
                (g, grid3_seq(k - flat, 2, 2, 2, 3, hi))
            }
        },
        move |(g, p): &(RoundedGrid, Vec<P3>), st| {
            nt(p.len(), st);
            if p[0].2 == 7 {
                let q: Vec<P> = p.iter().map(|p| (p.0, p.1)).collect();
                vw2_at::<DVec2>("DVec2", &q, q.iter().map(|p| g.on(*p)).map(|p| DVec2::new(p.0, p.1)).collect(), st);
                if (g.step, g.at) != (1, 2) {
                    vw2_at::<Vec2>("Vec2", &q, q.iter().map(|p| g.on(*p)).map(|p| Vec2::new(p.0 as f32, p.1 as f32)).collect(), st);
                }
            } else if [0, 1, 4].contains(&g.dir) {
                let (o, e) = (g.on((0, 0)), g.on((1, 0)));
                let k = (e.0 - o.0).hypot(e.1 - o.1);
                let v: Vec<DVec3> = p.iter().map(|p| (g.on((p.0, p.1)), p.2 as f64 * k + o.0)).map(|((x, y), z)| DVec3::new(x, y, z)).collect();
                vw3_at::<DVec3>("DVec3", p, v, st);
            }
        },
    ));
    v.push(fam_list(
        "long line strings in the plane and in space",
        rule,
        long_lines(),
        move |(_, p): &(String, Vec<P>), st| {
            nt(p.len(), st);
            vw2::<DVec2>("DVec2", p, st);
            for lift in 0..2 {
                let q: Vec<P3> = p
                    .iter()
                    .enumerate()
                    .map(|(i, p)| match lift {
                        0 => (3, p.0, p.1),
                        _ => (p.0, (i * i % 7) as i64, p.1),
                    })
                    .collect();
                vw3::<DVec3>("DVec3", &q, st);
            }
        },
    ));
    v.push(fam_list("a line of more than 65536 points with two spikes, in the plane and in space, all but 8 points removed", rule, (0..4usize).collect(), move |k: &usize, st| {
        st.nontrivial += 1;
        st.calls += 1;
        let p = spiked(70_000);
        let want: Vec<P> = KEPT.iter().map(|x| p[*x as usize]).collect();
        let (p, want) = if k % 2 == 1 { (p.into_iter().rev().collect::<Vec<P>>(), want.into_iter().rev().collect()) } else { (p, want) };
        let delete = p.len() - want.len();
        let r: Vec<P> = match k / 2 {
            0 => small_stack(|| ints2(&ms2::<DVec2>(&p).simplify_vw(delete)).unwrap_or_default()),
            _ => small_stack(|| ms3::<DVec3>(&p.iter().map(|p| (p.1, 7, p.0)).collect::<Vec<P3>>()).simplify_vw(delete).iter().map(|x| int3(*x).map_or((-1, -1), |x| (x.2, x.0))).collect()),
        };
        st.state(k);
        if k / 2 == 1 && r[..] == want[..want.len() - 1] {
            st.fail_key("vw3d/last-point-lost", format!("variant {k}: the last point is missing from {r:?}"));
            return;
        }
        ensure!(st, r == want, "variant {k}: {} points are left, expected {want:?}", r.len());
    }));
    v
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C09",
            families: |t| with_zeros(with_scales(c09, t, &["under all placements"], &AREA_SCALES), c09, &["under all placements"]),
            bounds: "all line strings up to 4 points of a 3x3 grid under 10 placements and all vector types, 5 to 6 (thorough 7) points of a 3x3 grid, 5 (6) of a 4x4 grid, height profiles up to 10 (12) points, index lists up to 6 (8) entries; in space up to 6 (7) points of a 2x2x2 grid, 4 of a 3x2x2 grid, profiles up to 8 (10); long structured lines up to 600 points, very long ones of 20000 (60000) and 70000 points on a thread with the default stack; tolerances 0, 0.5, 1, ... 100 and infinity",
            assumptions: &["coordinates are such that the computed squared distances are ordered like the exact ones, and in the range of the scalar type"],
        },
        Prop {
            id: "C10",
            families: |t| with_digits(with_zeros(with_scales(c10, t, &["under all placements"], &AREA_SCALES), c10, &["under all placements"]), c10, &["under all placements"]),
            bounds: "all line strings up to 4 points of a 3x3 grid under 10 placements and all vector types, 5 to 6 (thorough 7) points of a 3x3 grid and 4 (5) of a 4x4 grid, open and closed, profiles up to 8 (9) points; in space up to 6 (7) points of a 2x2x2 grid, 4 of a 3x2x2 grid, profiles up to 8 (9); profiles up to 7 (9) points with areas that differ by one part in a million; long structured lines up to 600 points, one of 70000; every number of deletions",
            assumptions: &["coordinates are such that areas are exact, and their squares are in the range of the scalar type"],
        },
    ]
}
