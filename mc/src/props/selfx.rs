//! C08 self-intersection of line strings.
use crate::fw::*;
use crate::geo::*;
use crate::{ensure, for_2d};
use linestring::linestring_2d::LineString2;
use vector_traits::glam::{DVec2, Vec2};
use vector_traits::GenericVector2;

/// two segments of the line share a point that is interior to at least one of them
pub fn self_intersects(p: &[P]) -> bool {
    let s: Vec<(P, P)> = p.windows(2).map(|w| (w[0], w[1])).collect();
    for i in 0..s.len() {
        for j in 0..i {
            match common(s[i].0, s[i].1, s[j].0, s[j].1) {
                Common::Nothing => {}
                Common::Overlap(..) => return true,
                Common::Point(x, y, n) => {
                    let at = |q: P| n == 1 && (x, y) == q;
                    let end = |l: (P, P)| at(l.0) || at(l.1);
                    if !(end(s[i]) && end(s[j])) {
                        return true;
                    }
                }
            }
        }
    }
    false
}

fn ask<T: GenericVector2>(n: &str, p: &[P], want: bool, seeds: u64, st: &mut Local) {
    let v: Vec<T> = ms2(p);
    for seed in 0..seeds {
        st.calls += 1;
        ahash::mc_set_seed(seed);
        let r = v.is_self_intersecting();
        ahash::mc_set_seed(0);
        match r {
            Ok(r) => ensure!(st, r == want, "{n} hash seed {seed}: self intersecting {r}, the geometry says {want}"),
            Err(e) => st.fail(format!("{n} hash seed {seed}: {e:?}")),
        }
    }
}

/// None: rounding decides
fn clearly_self_intersects(p: &[P]) -> Option<bool> {
    let s: Vec<(P, P)> = p.windows(2).map(|w| (w[0], w[1])).collect();
    let mut close = false;
    for i in 0..s.len() {
        for j in 0..i {
            match common(s[i].0, s[i].1, s[j].0, s[j].1) {
                Common::Nothing => {}
                // the same end points are still the same
                Common::Overlap(..) if s[i] == s[j] || s[i] == (s[j].1, s[j].0) => return Some(true),
                Common::Overlap(..) => close = true,
                Common::Point(x, y, n) => {
                    let at = |q: P| n == 1 && (x, y) == q;
                    let end = |l: (P, P)| at(l.0) || at(l.1);
                    match (end(s[i]), end(s[j])) {
                        (true, true) => {}
                        (false, false) => return Some(true),
                        _ => close = true,
                    }
                }
            }
        }
    }
    if close {
        None
    } else {
        Some(false)
    }
}

fn rounded<T: GenericVector2>(n: &str, g: &RoundedGrid, p: &[P], want: Option<bool>, st: &mut Local) {
    let v: Vec<T> = p
        .iter()
        .map(|q| {
            let q = g.on(*q);
            v2(q.0, q.1)
        })
        .collect();
    st.calls += 1;
    match v.is_self_intersecting() {
        Ok(r) => ensure!(st, want.is_none_or(|w| w == r), "{n} {v:?}: self intersecting {r}, the geometry says {want:?}"),
        Err(e) => st.fail(format!("{n} {v:?}: {e:?}")),
    }
}

fn case(p: &[P], seeds: u64, types: bool, st: &mut Local) {
    let want = self_intersects(p);
    st.tag(if want { "self intersecting" } else { "not self intersecting" });
    st.tag(if p.len() < 10 { "short line strings" } else { "long line strings" });
    let mut d = p.to_vec();
    d.sort();
    d.dedup();
    if d.len() < p.len() || want {
        st.nontrivial += 1;
    }
    st.state(&(want, p.len(), d.len(), p.first() == p.last()));
    if types {
        for_2d!(T, n, { ask::<T>(n, p, want, seeds, st) });
    } else {
        ask::<DVec2>("DVec2", p, want, seeds, st);
    }
}

/// all self avoiding paths with `n` corners and unit steps on a w x h grid
fn paths(w: i64, h: i64, n: usize) -> Vec<Vec<P>> {
    fn rec(cur: &mut Vec<P>, w: i64, h: i64, n: usize, out: &mut Vec<Vec<P>>) {
        if cur.len() == n {
            out.push(cur.clone());
            return;
        }
        let l = cur[cur.len() - 1];
        for (dx, dy) in [(1, 0), (0, 1), (-1, 0), (0, -1)] {
            let q = (l.0 + dx, l.1 + dy);
            if q.0 >= 0 && q.1 >= 0 && q.0 < w && q.1 < h && !cur.contains(&q) {
                cur.push(q);
                rec(cur, w, h, n, out);
                cur.pop();
            }
        }
    }
    let mut out = Vec::new();
    for p in grid_points(w, h) {
        rec(&mut vec![p], w, h, n, &mut out);
    }
    out
}

const K: i64 = 840;
fn place(p: &[P]) -> Vec<P> {
    p.iter().map(|q| (q.0 * K + 10 * K, q.1 * K + 10 * K)).collect()
}

/// three ways to go on from the grid, far enough from it to add nothing of their own
const TAILS: [[P; 10]; 3] = [
    [(5, 1), (6, 3), (7, 1), (8, 3), (9, 1), (10, 3), (11, 1), (12, 3), (13, 1), (14, 3)],
    [(5, 5), (-5, 5), (-5, -5), (6, -5), (6, 6), (-6, 6), (-6, -6), (7, -6), (7, 7), (-7, 7)],
    [(1, 9), (1, 8), (2, 8), (2, 9), (3, 9), (3, 8), (4, 8), (4, 9), (5, 9), (5, 8)],
];

/// line strings of n points that do not meet themselves
fn winding(n: i64) -> Vec<(&'static str, Vec<P>)> {
    let mut spiral = vec![(0, 0)];
    let d = [(4, 0), (0, 4), (-4, 0), (0, -4)];
    for i in 0..n - 1 {
        let l = spiral[spiral.len() - 1];
        let k = i / 2 + 1;
        let (dx, dy) = d[(i % 4) as usize];
        spiral.push((l.0 + dx * k, l.1 + dy * k));
    }
    vec![
        ("saw", (0..n).map(|i| (4 * i, i % 2 * 8)).collect()),
        ("meander", (0..n).map(|i| ((i + 1) / 2 * 4, (i / 2 % 2) * 12)).collect()),
        ("meander from bottom to top", (0..n).map(|i| ((i / 2 % 2) * 12, (i + 1) / 2 * 4)).collect()),
        ("meander from right to left", (0..n).map(|i| (-(i + 1) / 2 * 4, -(i / 2 % 2) * 12)).collect()),
        ("stairs", (0..n).map(|i| ((i + 1) / 2 * 4, i / 2 * 4)).collect()),
        ("spiral", spiral),
        ("parabola", (0..n).map(|i| (2 * (i - n / 2), (i - n / 2) * (i - n / 2) / 4)).collect()),
    ]
}

fn c08(t: Tier) -> Vec<Box<dyn Family>> {
    let mut v: Vec<Box<dyn Family>> = Vec::new();
    let rule = "a point is visited twice or two segments cross, touch or overlap";
    let nm = FAR_MAPS.len() as u64;
    v.push(fam(
        "every line string of up to 4 points of a 3x3 grid under all placements and vector types",
        rule,
        seq_count(9, 0, 4) * nm,
        move |i| FAR_MAPS[(i % nm) as usize].all(&grid_seq(i / nm, 3, 3, 0, 4)),
        |p: &Vec<P>, st| case(p, 1, true, st),
    ));
    v.push(fam(
        "every line string of 4 points of 13 points in and around a flat box, alone and continued to 10 points, 3 lengths, 4 positions",
        rule,
        13u64.pow(4) * 12 * 2,
        |i| {
            let n = [20, 500, 4096][(i % 3) as usize];
            let f = flat_points(n, i / 3 % 4);
            let mut p: Vec<P> = seq_decode(i / 24, 13, 4, 4).iter().map(|k| f[*k as usize]).collect();
            if i / 12 % 2 == 1 {
                p.extend((0..6).map(|k| (3 * n + 8 * k, 2 * n + k % 2)));
            }
            p
        },
        |p: &Vec<P>, st| case(p, 1, false, st),
    ));
    let hi = t.pick(7, 8);
    v.push(fam(
        format!("every line string of 5 to {hi} points of a 3x3 grid"),
        rule,
        seq_count(9, 5, hi),
        move |i| place(&grid_seq(i, 3, 3, 5, hi)),
        |p: &Vec<P>, st| case(p, 1, false, st),
    ));
    let g = t.pick(5, 6);
    v.push(fam(
        format!("every line string of {g} points of a 4x4 grid"),
        rule,
        seq_count(16, g, g),
        move |i| grid_seq(i, 4, 4, g, g).iter().map(|p| (p.0 * 12252240, p.1 * 12252240)).collect::<Vec<P>>(),
        |p: &Vec<P>, st| case(p, 1, false, st),
    ));
    let hi = t.pick(5, 6);
    v.push(fam(
        format!("every line string of 2 to {hi} points of a 3x3 grid, continued to 9, 10 and 11 or more points, at the end and in front, closed or not"),
        rule,
        seq_count(9, 2, hi) * 18,
        move |i| {
            let (tail, n, front, closed) = ((i % 3) as usize, i / 3 % 3, i / 9 % 2 == 1, i % 5 == 0);
            let mut p = grid_seq(i / 18, 3, 3, 2, hi);
            let want = 9 + n as usize - closed as usize;
            let mut rest = TAILS[tail][..want - p.len()].to_vec();
            if front {
                rest.reverse();
                rest.extend(p);
                p = rest;
            } else {
                p.extend(rest);
            }
            if closed {
                p.push(p[0]);
            }
            place(&p)
        },
        move |p: &Vec<P>, st| case(p, t.pick(2, 4), false, st),
    ));
    let mut l: Vec<Vec<P>> = Vec::new();
    for n in t.pick(8..=11usize, 8..=12) {
        l.extend(paths(3, 4, n));
    }
    if !t.quick() {
        l.extend(paths(4, 4, 10));
    }
    let m = l.len() as u64;
    v.push(fam(
        "every self avoiding path of 8 to 11 (thorough 12) corners on a 3x4 grid, then one more point anywhere on or around the grid",
        rule,
        m * 30,
        move |i| {
            let mut p = l[(i / 30) as usize].clone();
            p.push(((i % 30 % 5) as i64 - 1, (i % 30 / 5) as i64 - 1));
            place(&p)
        },
        move |p: &Vec<P>, st| case(p, t.pick(2, 4), false, st),
    ));
    let hi = t.pick(4, 5);
    let rounded_case = |(g, p): &(RoundedGrid, Vec<P>), st: &mut Local| {
        let want = clearly_self_intersects(p);
        st.tag(match want {
            Some(true) => "self intersecting",
            Some(false) => "not self intersecting",
            None => "rounding decides: only that there is an answer",
        });
        if want != Some(false) {
            st.nontrivial += 1;
        }
        rounded::<DVec2>("DVec2", g, p, want, st);
        if (g.step, g.at) != (1, 2) {
            rounded::<Vec2>("Vec2", g, p, want, st);
        }
    };
    v.push(fam(
        format!("coordinates that are rounded: every line string of 2 to {hi} points of a 3x3 grid with 6 steps that can't be represented, in 6 directions and 3 positions"),
        rule,
        seq_count(9, 2, hi) * 108,
        move |i| (RoundedGrid::nth(i % 108), grid_seq(i / 108, 3, 3, 2, hi)),
        rounded_case,
    ));
    let hi = t.pick(3, 4);
    v.push(fam(
        format!("coordinates that are rounded: every line string of 2 to {hi} points of a 3x3 grid, continued to 9 to 11 points, open or closed"),
        rule,
        seq_count(9, 2, hi) * 18 * 108,
        move |i| {
            let g = RoundedGrid::nth(i % 108);
            let i = i / 108;
            let (tail, n, closed) = ((i % 3) as usize, i / 3 % 3, i / 9 % 2 == 0);
            let mut p = grid_seq(i / 18, 3, 3, 2, hi);
            let want = 9 + n as usize - closed as usize;
            p.extend(&TAILS[tail][..want - p.len()]);
            if closed {
                p.push(p[0]);
            }
            (g, p)
        },
        rounded_case,
    ));
    // long line strings in which one point, or the end, is somewhere else
    let mut l: Vec<(String, Vec<P>)> = Vec::new();
    for n in t.pick(vec![11i64, 16, 20, 33, 65, 129, 257], vec![11, 12, 16, 20, 31, 32, 33, 50, 64, 65, 100, 129, 257, 513, 1000]) {
        let step = (n / t.pick(33, 130)).max(1);
        for (what, p) in winding(n) {
            l.push((format!("{what} of {n} points"), p.clone()));
            l.push((format!("closed {what} of {n} points"), close(&p)));
            for i in (0..n).step_by(step as usize).chain([n - 2, n - 1]) {
                let q = p[i as usize];
                for (k, d) in [(0, -4), (4, 4), (-5, 0), (0, 2), (2, -6), (-14, 3)].iter().enumerate() {
                    let mut r = p.clone();
                    r[i as usize] = (q.0 + d.0, q.1 + d.1);
                    l.push((format!("{what} of {n} points, point {i} moved by {d:?}"), if k % 2 == 0 { r } else { close(&r) }));
                }
                // a point that is visited again
                let mut r = p.clone();
                r[i as usize] = p[(i * 5 % n) as usize];
                l.push((format!("{what} of {n} points, point {i} visits another"), r));
            }
        }
    }
    v.push(fam_list("long line strings, open and closed, in which one point is somewhere else", rule, l, |(_, p): &(String, Vec<P>), st| {
        // every place where segments meet is a multiple of a quarter, or rounded but alone
        let q: Vec<P> = p.iter().map(|q| (q.0 * K + 40 * K, q.1 * K + 40 * K)).collect();
        case(&q, 1, false, st)
    }));
    v.push(fam_list("line strings of 70000 points, which meet themselves or not, forwards and backwards, upwards and downwards", rule, (0..24u64).collect(), |k, st| {
        const N: i64 = 70_000;
        let mut p: Vec<P> = (0..N).map(|i| (i % 2 * 4, 2 * i)).collect();
        let back = [(9, 2 * N + 10), (9, -5)];
        let want = match k % 6 {
            0 => false,
            1 => {
                p.extend(back);
                p.push(p[0]);
                false
            }
            2 => {
                // touches the first segment
                p.extend(back);
                p.push((2, 1));
                true
            }
            3 => {
                p.swap(65_537, 65_539);
                true
            }
            4 => {
                // crosses the first segment
                p.extend(back);
                p.push((-1, 3));
                true
            }
            _ => {
                p.push(p[N as usize - 2]);
                true
            }
        };
        if k / 6 % 2 == 1 {
            p.reverse();
        }
        if k / 12 == 1 {
            p = p.iter().map(|q| (-q.0, -q.1)).collect();
        }
        st.calls += 1;
        if want {
            st.nontrivial += 1;
        }
        st.state(k);
        match ms2::<DVec2>(&p).is_self_intersecting() {
            Ok(r) => ensure!(st, r == want, "line string {k} of {} points: self intersecting {r}, the geometry says {want}", p.len()),
            Err(e) => st.fail(format!("line string {k} of {} points: {e:?}", p.len())),
        }
    }));
    let n = t.pick(10, 11);
    v.push(fam(
        format!("every line string of {n} points of a 2x2 grid, then a point outside"),
        rule,
        4u64.pow(n),
        move |i| {
            let mut p = grid_seq(i, 2, 2, n, n);
            p.push((3, 0));
            place(&p)
        },
        |p: &Vec<P>, st| case(p, 1, false, st),
    ));
    v
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C08",
        families: |t| with_digits(with_zeros(with_scales(c08, t, &["under all placements", "coordinates that are rounded"], &CROSS_SCALES), c08, &["under all placements"]), c08, &["under all placements"]),
        bounds: "all line strings up to 4 points of a 3x3 grid under 10 placements, 5 (thorough 6) points of a 4x4 grid, up to 7 (8) points of a 3x3 grid, continuations of the short ones across the switch of algorithm, self avoiding paths up to 11 (12) corners and one free point, winding line strings of 11 to 257 (1000) points in which one point is somewhere else, 24 of 70000 points",
        assumptions: &["meeting points of several segments are exactly representable"],
    }]
}
