//! C01 hull algorithms, C02 the parallel hull, C03 points in hulls, C04 hulls in hulls.
use crate::fw::*;
use crate::geo::*;
use crate::sched::{explore, taken};
use crate::schedvec::S2;
use crate::{ensure, for_2d};
use linestring::linestring_2d::convex_hull as ch;
use linestring::linestring_2d::LineString2;
use linestring::LinestringError;
use rayon_core::mc::Config;
use vector_traits::HasXY;
use vector_traits::glam::DVec2;
use vector_traits::GenericVector2;

// ------------------------------------------------------------------ the specification

/// Checks a claimed hull of the points against the exact one.
pub fn hull_verdict(pts: &[P], r: &[P]) -> Result<(), String> {
    let h = hull(pts);
    let ok = match h.len() {
        0 => r.is_empty(),
        1 => !r.is_empty() && r.len() <= 3 && r.iter().all(|p| *p == h[0]),
        2 => {
            (r.len() == 2 || (r.len() == 3 && r[0] == r[2])) && {
                let mut s = r[..2].to_vec();
                s.sort();
                s == h
            }
        }
        _ => r.len() == h.len() + 1 && r[0] == r[r.len() - 1] && rotate_min(&r[1..]) == rotate_min(&h),
    };
    if ok {
        Ok(())
    } else {
        Err(format!("got {r:?}, the hull is {h:?} (closed)"))
    }
}

fn check_plain<T: GenericVector2>(
    name: &str,
    pts: &[P],
    r: Result<Vec<T>, LinestringError>,
    st: &mut Local,
) {
    st.calls += 1;
    match r {
        Ok(r) => match ints2(&r) {
            Some(r) => {
                if let Err(e) = hull_verdict(pts, &r) {
                    st.fail(format!("{name}: {e}"))
                }
            }
            None => st.fail(format!("{name}: a corner that is not an input point: {r:?}")),
        },
        Err(e) => st.fail(format!("{name}: refused finite input: {e:?}")),
    }
}

/// the indices must come from the list, and mark the corners of the hull of the listed vertices
fn index_verdict(all: &[P], idx: &[usize], r: &[usize]) -> Result<(), String> {
    if let Some(b) = r.iter().find(|i| !idx.contains(i)) {
        return Err(format!("index {b} is not in the list"));
    }
    let listed: Vec<P> = idx.iter().map(|i| all[*i]).collect();
    let got: Vec<P> = r.iter().map(|i| all[*i]).collect();
    hull_verdict(&listed, &got)?;
    if r.len() > 3 && r[0] != r[r.len() - 1] {
        return Err(format!("the index list {r:?} is not closed"));
    }
    Ok(())
}

fn check_indexed(name: &str, all: &[P], idx: &[usize], r: Result<Vec<usize>, LinestringError>, st: &mut Local) {
    st.calls += 1;
    match r {
        Ok(r) => {
            if let Err(e) = index_verdict(all, idx, &r) {
                st.fail(format!("{name}: indices {r:?}: {e}"))
            }
        }
        Err(e) => st.fail(format!("{name}: refused finite input: {e:?}")),
    }
}

#[allow(deprecated)]
fn all_algorithms<T: GenericVector2>(tn: &str, pts: &[P], st: &mut Local) {
    let v: Vec<T> = ms2(pts);
    check_plain(&format!("gift_wrap<{tn}>"), pts, ch::gift_wrap(&v), st);
    check_plain(&format!("graham_scan<{tn}>"), pts, ch::graham_scan(&v), st);
    check_plain(&format!("graham_scan_wo_atan2<{tn}>"), pts, ch::graham_scan_wo_atan2(&v), st);
    check_plain(&format!("LineString2::convex_hull<{tn}>"), pts, v.convex_hull(), st);
    let idx: Vec<usize> = (0..v.len()).collect();
    check_indexed(&format!("indexed_graham_scan<{tn}>"), pts, &idx, ch::indexed_graham_scan(&v, &idx), st);
    check_indexed(&format!("indexed_gift_wrap<{tn}>"), pts, &idx, ch::indexed_gift_wrap(&v, &idx), st);
}

fn c01_case(pts: &[P], st: &mut Local, all_types: bool) {
    let h = hull(pts);
    st.state(&h);
    let mut d = pts.to_vec();
    d.sort();
    d.dedup();
    if h.len() >= 3 && d.len() > h.len() {
        st.nontrivial += 1;
    }
    if d.len() < pts.len() {
        st.tag("inputs with repeated points");
    }
    if h.len() == 2 && d.len() > 2 {
        st.tag("inputs with all points on a line");
    }
    if all_types {
        for_2d!(T, n, { all_algorithms::<T>(n, pts, st) });
    } else {
        all_algorithms::<DVec2>("glam::DVec2", pts, st);
    }
}

/// lengths of the flat boxes
const FLAT: [i64; 4] = [20, 500, 4096, 65536];
const RULE: &str = "the hull has an interior and at least one distinct input point is not a corner";

fn c01(t: Tier) -> Vec<Box<dyn Family>> {
    let mut v: Vec<Box<dyn Family>> = Vec::new();
    let hi = t.pick(5, 7);
    v.push(fam_list("a square with cross products below the epsilon of the scalar type", "always", vec![0], |_: &i32, st| tiny_square(st)));
    v.push(fam(
        format!("every sequence of at most {hi} points of a 3x3 grid"),
        RULE,
        seq_count(9, 0, hi),
        move |i| grid_seq(i, 3, 3, 0, hi),
        |p: &Vec<P>, st| c01_case(p, st, p.len() <= 5),
    ));
    let hi = t.pick(4, 5);
    v.push(fam(
        format!("every sequence of at most {hi} points of a 4x4 grid, under {} placements", FAR_MAPS.len()),
        RULE,
        seq_count(16, 0, hi) * FAR_MAPS.len() as u64,
        move |i| FAR_MAPS[(i % FAR_MAPS.len() as u64) as usize].all(&grid_seq(i / FAR_MAPS.len() as u64, 4, 4, 0, hi)),
        |p: &Vec<P>, st| c01_case(p, st, true),
    ));
    v.push(fam(
        "every subset of a 4x4 grid, in 4 orders, with and without repetitions",
        RULE,
        (1 << 16) * 8,
        |i| {
            let s = i / 8;
            let mut p: Vec<P> = (0..16).filter(|b| s >> b & 1 == 1).map(|b| grid(b, 4)).collect();
            reorder(&mut p, i % 4);
            if i % 8 >= 4 {
                // every point once more, in the opposite order
                let mut q = p.clone();
                q.reverse();
                p.extend(q);
            }
            p
        },
        |p: &Vec<P>, st| c01_case(p, st, false),
    ));
    v.push(fam(
        "every sequence of 3 or 4 of 13 points in and around a flat box, 4 lengths up to 65536, 4 positions",
        RULE,
        seq_count(13, 3, 4) * 16,
        |i| {
            let n = FLAT[(i % 4) as usize];
            let f = flat_points(n, i / 4 % 4);
            (n, seq_decode(i / 16, 13, 3, 4).iter().map(|k| f[*k as usize]).collect::<Vec<P>>())
        },
        |(n, p): &(i64, Vec<P>), st| c01_case(p, st, *n == 20),
    ));
    v.push(fam(
        "every subset of these points, in 4 orders",
        RULE,
        (1 << 13) * 4 * 16,
        |i| {
            let f = flat_points(FLAT[(i % 4) as usize], i / 4 % 4);
            let mut p: Vec<P> = (0..13).filter(|b| i >> 6 >> b & 1 == 1).map(|b| f[b]).collect();
            reorder(&mut p, i / 16 % 4);
            p
        },
        |p: &Vec<P>, st| c01_case(p, st, false),
    ));
    v.push(fam_list("large structured inputs", RULE, large_inputs(t), |p: &Vec<P>, st| c01_case(p, st, true)));
    v.push(fam_list("huge structured inputs", RULE, huge(t), |(_, p): &(String, Vec<P>), st| {
        c01_case(p, st, p.iter().all(|p| p.0.abs() <= 101 && p.1.abs() <= 101))
    }));
    v.push(fam_list("more than 65536 points", RULE, past_16_bit(), |(_, p): &(String, Vec<P>), st| {
        c01_case(p, st, false);
        // the first half is not listed
        let idx: Vec<usize> = (30_000..p.len()).rev().collect();
        let tv: Vec<DVec2> = ms2(p);
        check_indexed("indexed_gift_wrap", p, &idx, ch::indexed_gift_wrap(&tv, &idx), st);
        check_indexed("indexed_graham_scan", p, &idx, ch::indexed_graham_scan(&tv, &idx), st);
    }));
    // index lists into a larger vertex array
    let verts: Vec<P> = vec![(0, 0), (4, 0), (2, 1), (4, 4), (0, 4), (2, 2), (4, 0)];
    let hi = t.pick(6, 7);
    v.push(fam(
        format!("every index list of at most {hi} indices into 7 vertices"),
        "at least three distinct indices and at least one vertex that is not listed",
        seq_count(7, 0, hi),
        move |i| seq_decode(i, 7, 0, hi).into_iter().map(|x| x as usize).collect::<Vec<usize>>(),
        move |idx: &Vec<usize>, st| {
            let mut d = idx.clone();
            d.sort();
            d.dedup();
            if d.len() >= 3 && d.len() < 7 {
                st.nontrivial += 1;
            }
            st.state(&d);
            let v: Vec<DVec2> = ms2(&verts);
            check_indexed("indexed_graham_scan", &verts, idx, ch::indexed_graham_scan(&v, idx), st);
            check_indexed("indexed_gift_wrap", &verts, idx, ch::indexed_gift_wrap(&v, idx), st);
            // the variant that leaves the loop open, with and without a given start
            let l: Vec<P> = idx.iter().map(|i| verts[*i]).collect();
            let lo = l.iter().min().copied();
            let start = idx.iter().copied().find(|i| Some(verts[*i]) == lo);
            for s in [None, start] {
                st.calls += 1;
                match ch::indexed_graham_scan_no_loop(&v, idx, s) {
                    Ok(mut r) => {
                        if r.len() > 2 {
                            r.push(r[0]);
                        }
                        if let Err(e) = index_verdict(&verts, idx, &r) {
                            st.fail(format!("indexed_graham_scan_no_loop(start {s:?}): {e}"))
                        }
                    }
                    Err(e) => st.fail(format!("indexed_graham_scan_no_loop: {e:?}")),
                }
            }
        },
    ));
    v.push(fam(
        "nearly parallel directions: two points seen from the first corner under angles that differ by one over the product of their distances, alone, with a third point and with collinear ones, in every order",
        "every case",
        2 * 4000,
        |i| {
            let at = i % 4;
            let (wide, a, b) = match i % 2 {
                0 => (false, 4093, (i / 2) as i64),
                _ => (true, (1 << 26) - 5, ((i / 2) as i64 * 16777 + 3) % (1 << 26)),
            };
            (wide, at, neighbours(a, b.max(1)))
        },
        |(wide, at, (a, b)): &(bool, u64, (P, P)), st| {
            st.nontrivial += 1;
            let o = (0, 0);
            let turn = |p: &P| match at {
                0 => *p,
                1 => (p.0, -p.1),
                2 => (p.1, p.0),
                _ => (-p.0, -p.1),
            };
            let half = (a.0 - b.0, a.1 - b.1);
            for set in [vec![o, *a, *b], vec![o, *a, *b, half], vec![o, *b, half, *a, *b], vec![*a, *b, half]] {
                for k in 0..fact(set.len().min(4) as u64) {
                    let mut p: Vec<P> = permute(k, &set[..set.len().min(4)]);
                    p.extend(&set[set.len().min(4)..]);
                    let p: Vec<P> = p.iter().map(turn).collect();
                    c01_case(&p, st, !*wide);
                }
            }
        },
    ));
    v.push(fam(
        "coordinates that are rounded: every subset of a 3x3 grid with 6 steps that can't be represented, in 6 directions and 3 positions, 2 orders",
        "at least three points",
        512 * 6 * 6 * 3 * 2,
        |i| (RoundedGrid { step: i % 6, dir: i / 6 % 6, at: i / 36 % 3 }, i / 108 % 2, (0..9).filter(|b| i / 216 >> b & 1 == 1).map(|b| grid(b, 3)).collect::<Vec<P>>()),
        |(g, order, p): &(RoundedGrid, u64, Vec<P>), st| {
            let mut p = p.clone();
            reorder(&mut p, order * 2);
            rounded_case(g, &p, st)
        },
    ));
    v.push(fam_list(
        "coordinates that are rounded: grids, lines, frames and clouds of up to 2500 points",
        "at least three points",
        rounded_inputs(t),
        |(g, p): &(RoundedGrid, Vec<P>), st| rounded_case(g, p, st),
    ));
    // the one known input on which the deprecated algorithm panics
    v.push(fam_list("rounding grid of 101 x 100 points in f32", "every case", vec![()], |_, st| {
        use vector_traits::glam::{vec2, Vec2};
        st.nontrivial += 1;
        let mut pos = vec2(0.0, 0.0);
        let mut dx = 0.01f32;
        let mut pts: Vec<Vec2> = Vec::new();
        for _ in 0..100 {
            for _ in 0..100 {
                pts.push(pos);
                pos.x += dx;
            }
            pts.push(pos);
            dx *= -1.0;
            pos.y += 0.01;
        }
        #[allow(deprecated)]
        let r = std::panic::catch_unwind(|| ch::graham_scan_wo_atan2(&pts));
        st.calls += 2;
        if r.is_err() {
            let m = panic_text();
            if m.contains("total order") {
                st.fail_key("graham_scan_wo_atan2/sort-order-panic/rounding-grid-101x100-f32", m);
            } else {
                st.fail(m);
            }
        }
        // the recommended algorithms handle it
        let g = ch::graham_scan(&pts);
        ensure!(st, g.is_ok(), "graham_scan: {g:?}");
    }));
    v
}

fn rounded_inputs(t: Tier) -> Vec<(RoundedGrid, Vec<P>)> {
    let mut shapes: Vec<Vec<P>> = Vec::new();
    for n in t.pick(vec![5, 10, 20, 50], vec![5, 7, 10, 14, 20, 30, 50, 80]) {
        // a meander, as in a test of the repository
        shapes.push((0..n).flat_map(|y| (0..n).map(move |x| (if y % 2 == 0 { x } else { n - 1 - x }, y))).collect());
        // lines in several directions, in order and mixed
        for d in [(1, 0), (0, 1), (1, 1), (3, 1), (-2, 5)] {
            shapes.push((0..n * 4).map(|i| (d.0 * i, d.1 * i)).collect());
            shapes.push((0..n * 4).map(|i| (i * 7 + 3) % (n * 4)).map(|i| (d.0 * i, d.1 * i)).collect());
        }
        // a frame
        shapes.push((0..n).flat_map(|i| [(i, 0), (n, i), (n - i, n), (0, n - i)]).collect());
        // clouds
        let m = n * n / 2 + 1;
        shapes.push((0..m).map(|i| ((i * 7919) % m, (i * 10429) % m)).collect());
        shapes.push(cloud(m as usize, n * 3));
    }
    let mut v = Vec::new();
    for p in shapes {
        for i in 0..108 {
            v.push((RoundedGrid { step: i % 6, dir: i / 6 % 6, at: i / 36 }, p.clone()));
        }
    }
    v
}
/// The coordinates are rounded, and so are the decisions of the code: the result has to be a hull but for
/// a small distance, corners being input points.
fn rounded_case(g: &RoundedGrid, p: &[P], st: &mut Local) {
    if p.len() >= 3 {
        st.nontrivial += 1;
    }
    let q: Vec<(f64, f64)> = p.iter().map(|p| g.on(*p)).collect();
    rounded_in::<DVec2>("glam::DVec2", &q, 1e-11, st);
    rounded_in::<vector_traits::glam::Vec2>("glam::Vec2", &q, 1e-3, st);
}
fn rounded_in<T: GenericVector2>(tn: &str, p: &[(f64, f64)], tol: f64, st: &mut Local) {
    let v: Vec<T> = p.iter().map(|p| v2(p.0, p.1)).collect();
    let q: Vec<(f64, f64)> = v.iter().map(|p| un2(*p)).collect();
    let idx: Vec<usize> = (0..v.len()).collect();
    let at = |r: Vec<usize>| r.iter().map(|i| v[*i]).collect::<Vec<T>>();
    for (name, r) in [
        ("gift_wrap", ch::gift_wrap(&v)),
        ("graham_scan", ch::graham_scan(&v)),
        ("LineString2::convex_hull", v.convex_hull()),
        ("indexed_graham_scan", ch::indexed_graham_scan(&v, &idx).map(at)),
        ("indexed_gift_wrap", ch::indexed_gift_wrap(&v, &idx).map(at)),
        ("convex_hull_par", ch::convex_hull_par(&v, &idx, 7).map(at)),
    ] {
        st.calls += 1;
        match r {
            Ok(r) => {
                let r: Vec<(f64, f64)> = r.iter().map(|p| un2(*p)).collect();
                if let Err(e) = rounded_verdict(&q, &r, tol) {
                    st.fail(format!("{name}<{tn}>: {e}"))
                }
            }
            Err(e) => st.fail(format!("{name}<{tn}>: refused finite input: {e:?}")),
        }
    }
}
fn rounded_verdict(p: &[(f64, f64)], r: &[(f64, f64)], tol: f64) -> Result<(), String> {
    if p.is_empty() {
        return if r.is_empty() { Ok(()) } else { Err("points out of nothing".into()) };
    }
    if let Some(c) = r.iter().find(|c| !p.contains(c)) {
        return Err(format!("{c:?} is not an input point"));
    }
    let ext = |k: fn(&(f64, f64)) -> f64| {
        let (mut lo, mut hi) = (f64::MAX, f64::MIN);
        for q in p {
            lo = lo.min(k(q));
            hi = hi.max(k(q));
        }
        (hi - lo, lo.abs().max(hi.abs()))
    };
    let (x, y) = (ext(|q| q.0), ext(|q| q.1));
    // rounding of the input depends on the distance from the origin
    let tol = tol * (x.0.max(y.0)).max(x.1.max(y.1)) + 0.0;
    if x.0.max(y.0) <= tol {
        return Ok(());
    }
    if r.len() < 2 {
        return Err(format!("{} points are too few", r.len()));
    }
    let mut length = 0.0;
    let closed: Vec<_> = if r.len() > 2 && r[0] != r[r.len() - 1] { return Err("not closed".into()) } else { close(r) };
    for w in closed.windows(2) {
        let d = (w[1].0 - w[0].0, w[1].1 - w[0].1);
        let l = d.0.hypot(d.1);
        length += l;
        if l > tol {
            for q in p {
                let c = (d.0 * (q.1 - w[0].1) - d.1 * (q.0 - w[0].0)) / l;
                if c < -tol {
                    return Err(format!("{q:?} is {} outside of the edge {w:?}, more than {tol}; hull of {} points", -c, r.len()));
                }
            }
        }
    }
    // once around, not twice, and not to and fro: no longer than the box
    if length > 2.0 * (x.0 + y.0) + r.len() as f64 * tol {
        return Err(format!("an outline of length {length} around a box of {} x {}", x.0, y.0));
    }
    Ok(())
}

/// Two points (a, b) and (c, d) with ad - bc = 1 and 0 <= c < a, where a and b are made coprime first.
fn neighbours(a: i64, b: i64) -> (P, P) {
    let g = gcd(a, b);
    let (a, b) = (a / g, b / g);
    // d with ad = 1 (mod b): the extended algorithm of Euclid
    let (mut r, mut s) = ((a, b), (1i64, 0i64));
    while r.1 != 0 {
        let q = r.0 / r.1;
        r = (r.1, r.0 - q * r.1);
        s = (s.1, s.0 - q * s.1);
    }
    // s.0 * a + y * b = 1
    let d = s.0.rem_euclid(b);
    let c = (a * d - 1) / b;
    ((a, b), (c, d))
}

fn reorder(p: &mut [P], how: u64) {
    match how {
        0 => {}
        1 => p.reverse(),
        2 => {
            // alternate front and back
            let q = p.to_vec();
            let n = q.len();
            for (k, s) in p.iter_mut().enumerate() {
                *s = if k % 2 == 0 { q[k / 2] } else { q[n - 1 - k / 2] };
            }
        }
        _ => p.sort_by_key(|q| (q.1 * 7 + q.0 * 5) % 11),
    }
}

/// the sizes of the huge inputs: around powers of two and round numbers
fn huge_sizes(t: Tier) -> Vec<usize> {
    let mut v = vec![101, 127, 128, 129, 200, 255, 256, 257, 400, 511, 512, 513, 1000, 1001, 1024, 1025];
    if !t.quick() {
        v.extend([1500, 2000, 2047, 2048, 2049, 3000, 4096, 4097]);
    }
    v
}

/// n points of a w x w grid, spread by a quadratic sequence
fn cloud(n: usize, w: i64) -> Vec<P> {
    (0..n as i64)
        .map(|i| ((i * i * 31 + i * 17 + 5) % w, (i * i * i * 7 + i * 29 + 11) % w))
        .collect()
}

/// inputs of n points: with few and with many corners, with repeated points and collinear ones
fn huge_inputs(n: usize) -> Vec<(&'static str, Vec<P>)> {
    let k = n as i64;
    let poly = lattice_polygon(n.min(600));
    let mut shuffled = poly.clone();
    reorder(&mut shuffled, 2);
    let (mx, my) = (poly.iter().map(|p| p.0).max().unwrap(), poly.iter().map(|p| p.1).max().unwrap());
    // a polygon around a cloud; its corners come first, last, or in between
    let few = vec![(0, 0), (mx, 0), (mx, my), (0, my)];
    let around = |at: usize| {
        let mut c: Vec<P> = cloud(n - 4, mx.min(my).max(2) - 1).iter().map(|p| (p.0 + 1, p.1 + 1)).collect();
        for (i, f) in few.iter().enumerate() {
            c.insert((at + i * (at > 0) as usize * 3).min(c.len()), *f);
        }
        c
    };
    vec![
        ("polygon", poly.clone()),
        ("polygon in another order", shuffled),
        ("polygon, every corner twice", poly.iter().flat_map(|p| [*p, *p]).collect()),
        ("cloud of a 101x101 grid", cloud(n, 101)),
        ("cloud of a 17x17 grid", cloud(n, 17)),
        ("cloud, the corners first", around(0)),
        ("cloud, the corners last", around(n)),
        ("cloud, the corners in the middle", around(n / 2)),
        ("two columns", (0..k).map(|i| (i % 2 * 50, i * 7 % k)).collect()),
        ("a row and one point", (0..k).map(|i| if i == k - 2 { (3, 1) } else { (i, 0) }).collect()),
        ("a diagonal", (0..k).map(|i| (i * 37 % k, i * 37 % k)).collect()),
        ("one point", vec![(3, -4); n]),
        ("one point and another at the end", (0..k).map(|i| ((i == k - 1) as i64, 0)).collect()),
    ]
}

/// more points than 16 bit indices can tell apart, with the corners far behind
fn past_16_bit() -> Vec<(String, Vec<P>)> {
    let mut v = Vec::new();
    for (n, at) in [(65_537usize, [65_533usize, 65_534, 65_535, 65_536]), (70_000, [65_535, 65_537, 66_001, 69_999]), (70_000, [0, 1, 65_536, 69_998]), (70_003, [7, 32_768, 65_538, 70_001])] {
        let mut p: Vec<P> = cloud(n, 29).iter().map(|p| (p.0 + 1, p.1 + 1)).collect();
        for (i, c) in at.iter().zip([(31, 30), (0, 0), (30, -1), (-1, 31)]) {
            p[*i] = c;
        }
        v.push((format!("{n} points with corners at {at:?}"), p));
    }
    v
}

fn huge(t: Tier) -> Vec<(String, Vec<P>)> {
    huge_sizes(t)
        .into_iter()
        .flat_map(|n| huge_inputs(n).into_iter().map(move |(s, p)| (format!("{n}: {s}"), p)))
        .collect()
}

fn large_inputs(t: Tier) -> Vec<Vec<P>> {
    let mut v = Vec::new();
    // convex polygons, every rotation, both directions, open and closed, with and without inner points
    for n in 3..=t.pick(26, 48) {
        let poly = lattice_polygon(n);
        for k in 0..n {
            let r = rotate(&poly, k);
            v.push(r.clone());
            v.push(close(&r));
            let mut q = r.clone();
            q.reverse();
            v.push(q.clone());
            // midpoints of doubled polygon edges: collinear with the corners
            let big: Vec<P> = r.iter().map(|p| (p.0 * 2, p.1 * 2)).collect();
            let mut with_mid = Vec::new();
            for i in 0..n {
                let (a, b) = (big[i], big[(i + 1) % n]);
                with_mid.push(a);
                with_mid.push(((a.0 + b.0) / 2, (a.1 + b.1) / 2));
            }
            v.push(with_mid.clone());
            with_mid.extend(big.iter().copied());
            v.push(with_mid);
        }
    }
    // full grids and long lines, every point repeated
    for w in 1..=8i64 {
        for h in 1..=8i64 {
            let g = grid_points(w, h);
            for how in 0..4 {
                let mut q = g.clone();
                reorder(&mut q, how);
                v.push(q.clone());
                v.push(q.iter().flat_map(|p| [*p, *p]).collect());
                v.push(q.iter().map(|p| (p.0 * 37 - 100, p.1 * 53 - 200)).collect());
            }
        }
    }
    for n in [20, 50, 100] {
        v.push((0..n).map(|i| (i, 0)).collect());
        v.push((0..n).map(|i| (0, -i)).collect());
        v.push((0..n).map(|i| (i, 2 * i)).collect());
        v.push((0..n).map(|i| (i % 3, i % 2)).collect());
        v.push(vec![(7, 7); n as usize]);
        // a parabola: every point is a corner
        v.push((0..n).map(|i| (i, i * i)).collect());
        v.push((0..n).rev().map(|i| (-i, i * i)).collect());
    }
    v
}

// ------------------------------------------------------------------ C02

fn par_case(pts: &[P], idx: &[usize], chunk: usize, cfg: Config, sv: bool, st: &mut Local) {
    let listed: Vec<P> = idx.iter().map(|i| pts[*i]).collect();
    let h = hull(&listed);
    st.state(&(h, chunk, cfg.threads));
    let v: Vec<DVec2> = ms2(pts);
    let s: Vec<S2> = ms2(pts);
    let mut d = listed.clone();
    d.sort();
    d.dedup();
    let distinct = d.len() == listed.len();
    let mut first: Option<Vec<usize>> = None;
    let mut bad: Option<String> = None;
    let n = explore(
        cfg,
        st,
        || {
            if sv {
                ch::convex_hull_par(&s, idx, chunk).map_err(|e| format!("{e:?}"))
            } else {
                ch::convex_hull_par(&v, idx, chunk).map_err(|e| format!("{e:?}"))
            }
        },
        |st, r, choices| {
            st.calls += 1;
            if bad.is_some() {
                return;
            }
            let err = match r {
                Ok(Ok(r)) => match index_verdict(pts, idx, r) {
                    Err(e) => Some(format!("indices {r:?}: {e}")),
                    Ok(()) => {
                        let r = r.clone();
                        let f = first.get_or_insert_with(|| r.clone());
                        if distinct && *f != r {
                            Some(format!("indices {r:?}, but {f:?} under the first schedule"))
                        } else {
                            None
                        }
                    }
                },
                Ok(Err(e)) => Some(format!("refused finite input: {e}")),
                Err(p) => Some(format!("panic: {p}")),
            };
            if let Some(e) = err {
                bad = Some(format!("schedule {:?}: {e}", taken(choices)));
            }
        },
    );
    if n > 1 {
        st.nontrivial += 1;
    }
    // ... and equals the sequential algorithm where that is determined
    if let (true, Some(f)) = (distinct, &first) {
        if let Ok(g) = ch::indexed_graham_scan(&v, idx) {
            st.calls += 1;
            if g.len() > 3 && f.len() > 3 && rotate_usize(&g[1..]) != rotate_usize(&f[1..]) {
                bad.get_or_insert(format!("parallel {f:?}, sequential {g:?}"));
            }
        }
    }
    if let Some(b) = bad {
        st.fail(b);
    }
}

fn rounded_par<T: GenericVector2 + Sync>(tn: &str, p: &[(f64, f64)], tol: f64, st: &mut Local) {
    let v: Vec<T> = p.iter().map(|p| v2(p.0, p.1)).collect();
    let q: Vec<(f64, f64)> = v.iter().map(|p| un2(*p)).collect();
    let idx: Vec<usize> = (0..v.len()).collect();
    for k in [1, 2, 3, 16, p.len() / 2 + 1] {
        for n in [1, 2] {
            st.calls += 1;
            let o = rayon_core::mc::run(cfg(n, true, 0), &[], || ch::convex_hull_par(&v, &idx, k));
            match o.result {
                Ok(Ok(r)) => {
                    let r: Vec<(f64, f64)> = r.iter().map(|i| q[*i]).collect();
                    if let Err(e) = rounded_verdict(&q, &r, tol) {
                        st.fail(format!("convex_hull_par<{tn}> chunk {k} threads {n}: {e}"))
                    }
                }
                Ok(Err(e)) => st.fail(format!("convex_hull_par<{tn}> chunk {k} threads {n}: refused finite input: {e:?}")),
                Err(_) => st.fail(format!("chunk {k} threads {n}: panic {}", panic_text())),
            }
        }
    }
}

fn rotate_usize(v: &[usize]) -> Vec<usize> {
    let k = (0..v.len()).min_by_key(|i| v[*i]).unwrap_or(0);
    rotate(v, k)
}

const fn cfg(threads: usize, injected: bool, preemptions: usize) -> Config {
    Config { threads, injected, preemptions, horizon: 200_000 }
}
const CFGS: [Config; 5] = [cfg(1, false, 0), cfg(1, true, 0), cfg(2, false, 0), cfg(2, true, 0), cfg(3, true, 0)];

fn c02(t: Tier) -> Vec<Box<dyn Family>> {
    let mut v: Vec<Box<dyn Family>> = Vec::new();
    let rule = "more than one schedule exists";
    // every reduction tree and steal pattern, small point sets, every chunk size
    let hi = t.pick(4, 5);
    let nc = t.pick(4, CFGS.len() as u64);
    v.push(fam(
        format!("every sequence of 3 to {hi} points of a 3x3 grid x chunk sizes 1..={hi} x pool shapes: all steal patterns"),
        rule,
        seq_count(9, 3, hi) * hi as u64 * nc,
        move |i| {
            let (c, i) = ((i % nc) as usize, i / nc);
            let (k, i) = ((i % hi as u64) as usize + 1, i / hi as u64);
            (CFGS[c], k, grid_seq(i, 3, 3, 3, hi))
        },
        |(c, k, p): &(Config, usize, Vec<P>), st| {
            let idx: Vec<usize> = (0..p.len()).collect();
            par_case(p, &idx, *k, *c, false, st);
        },
    ));
    let sets: Vec<Vec<P>> = {
        let mut s = Vec::new();
        for k in t.pick(vec![6u64, 9], vec![5, 6, 7, 8, 9]) {
            for i in 0..binom(9, k) {
                let mut p: Vec<P> = subset(i, 9, k).into_iter().map(|b| grid(b, 3)).collect();
                for how in 0..4 {
                    reorder(&mut p, how);
                    s.push(p.clone());
                    let mut q = p.clone();
                    q.insert(q.len() / 2, q[0]);
                    q.push(q[1]);
                    s.push(q);
                }
            }
        }
        s
    };
    let chunks: Vec<usize> = vec![1, 2, 3, 4, 5, 6, 7, 100];
    let mut list = Vec::new();
    for s in &sets {
        for k in &chunks {
            let parts = s.len().div_ceil(*k);
            for c in CFGS {
                // the number of schedules grows with the number of parts
                if parts <= 4 || (c.threads <= 2 && parts <= t.pick(5, 7)) || c.threads == 1 {
                    list.push((c, *k, s.clone()));
                }
            }
        }
    }
    v.push(fam_list("subsets of a 3x3 grid with repetitions: all steal patterns", rule, list, |(c, k, p), st| {
        let idx: Vec<usize> = (0..p.len()).collect();
        par_case(p, &idx, *k, *c, false, st);
    }));
    // preemptions inside of the closures
    let mut list = Vec::new();
    for s in sets.iter().step_by(t.pick(37, 5)).chain([lattice_polygon(8), lattice_polygon(10), vec![(3, 3); 7]].iter()) {
        for k in [2usize, 3, 4, 5] {
            if s.len().div_ceil(k) <= t.pick(3, 4) {
                for c in [cfg(2, true, t.pick(1, 2)), cfg(2, false, 1), cfg(3, true, 1)] {
                    if c.preemptions == 1 || s.len().div_ceil(k) <= 2 {
                        list.push((c, k, s.clone()));
                    }
                }
            }
        }
    }
    v.push(fam_list(
        format!("preemption between any two vector operations inside the tasks, at most {} preemptions", t.pick(1, 2)),
        rule,
        list,
        |(c, k, p): &(Config, usize, Vec<P>), st| {
            let idx: Vec<usize> = (0..p.len()).collect();
            par_case(p, &idx, *k, *c, true, st);
        },
    ));
    // index lists
    let verts: Vec<P> = vec![(0, 0), (4, 0), (2, 1), (4, 4), (0, 4), (2, 2), (4, 0)];
    let hi = t.pick(5, 6);
    v.push(fam(
        format!("every index list of 3 to {hi} indices into 7 vertices x chunk sizes 2, 3: all steal patterns"),
        rule,
        seq_count(7, 3, hi) * 2,
        move |i| (2 + (i % 2) as usize, seq_decode(i / 2, 7, 3, hi).into_iter().map(|x| x as usize).collect::<Vec<usize>>()),
        move |(k, idx): &(usize, Vec<usize>), st| par_case(&verts, idx, *k, cfg(2, true, 0), false, st),
    ));
    // large inputs, chunk sizes around the length, default schedule of every pool shape
    let big: Vec<(usize, Vec<P>)> = large_inputs(Tier::Quick)
        .into_iter()
        .filter(|p| p.len() >= 3)
        .step_by(t.pick(7, 1))
        .flat_map(|p| {
            let n = p.len();
            let mut k = vec![1, 2, 3, 5, 8, n / 3, n / 2, n - 1, n, n + 1];
            k.retain(|k| *k > 0);
            k.sort();
            k.dedup();
            k.into_iter().map(move |k| (k, p.clone()))
        })
        .collect();
    let mut big = big;
    for (name, p) in huge(t) {
        let n = p.len();
        for (j, k) in [7, 16, 33, 64, 100, 128, 255, n / 8, n / 2, n - 1, n].into_iter().enumerate() {
            if (n + j + name.len()) % t.pick(4, 1) == 0 {
                big.push((k, p.clone()));
            }
        }
    }
    v.push(fam(
        "every subset of 13 points in and around a flat box, 4 lengths up to 65536, 4 positions, in 4 orders, chunk sizes 2, 3 and 5, one thread",
        "the hull has an interior",
        (1 << 13) * 4 * t.pick(4, 16),
        |i| {
            let f = flat_points(FLAT[(i % 4) as usize], i / 4 % 4 + i / (1 << 17) % 4);
            let mut p: Vec<P> = (0..13).filter(|b| i >> 4 >> b & 1 == 1).map(|b| f[b]).collect();
            reorder(&mut p, (i >> 17) % 4);
            p
        },
        |p: &Vec<P>, st| {
            if hull(p).len() > 2 {
                st.nontrivial += 1;
            }
            st.state(p);
            let v: Vec<DVec2> = ms2(p);
            let idx: Vec<usize> = (0..v.len()).collect();
            for k in [2, 3, 5] {
                let o = rayon_core::mc::run(cfg(1, false, 0), &[], || ch::convex_hull_par(&v, &idx, k));
                match o.result {
                    Ok(r) => check_indexed(&format!("convex_hull_par chunk {k}"), p, &idx, r, st),
                    Err(_) => st.fail(format!("chunk {k}: panic {}", panic_text())),
                }
            }
        },
    ));
    v.push(fam(
        "nearly parallel directions in 64 bit coordinates up to 2^26: four points in every order, chunk sizes 1, 2 and 3, one and two threads",
        "every case",
        4000,
        |i| neighbours((1 << 26) - 5, ((i * 16777 + 3) % (1 << 26)) as i64),
        |(a, b): &(P, P), st| {
            st.nontrivial += 1;
            let set = [(0, 0), *a, *b, (a.0 - b.0, a.1 - b.1)];
            for k in 0..fact(4) {
                let p: Vec<P> = permute(k, &set);
                let v: Vec<DVec2> = ms2(&p);
                let idx: Vec<usize> = (0..v.len()).collect();
                for c in [1, 2, 3] {
                    for n in [1, 2] {
                        let o = rayon_core::mc::run(cfg(n, true, 0), &[], || ch::convex_hull_par(&v, &idx, c));
                        match o.result {
                            Ok(r) => check_indexed(&format!("convex_hull_par chunk {c}"), &p, &idx, r, st),
                            Err(_) => st.fail(format!("chunk {c}: panic {}", panic_text())),
                        }
                    }
                }
            }
        },
    ));
    v.push(fam_list(
        "coordinates that are rounded: grids, lines, frames and clouds of up to 2500 points, 5 chunk sizes, one and two threads",
        "at least three points",
        rounded_inputs(t),
        |(g, p): &(RoundedGrid, Vec<P>), st| {
            if p.len() >= 3 {
                st.nontrivial += 1;
            }
            let q: Vec<(f64, f64)> = p.iter().map(|p| g.on(*p)).collect();
            rounded_par::<DVec2>("glam::DVec2", &q, 1e-11, st);
            rounded_par::<vector_traits::glam::Vec2>("glam::Vec2", &q, 1e-3, st);
        },
    ));
    let mut big = big;
    for (_, p) in past_16_bit() {
        for k in [1000, 32_768, 65_536, 100_000, usize::MAX] {
            big.push((k, p.clone()));
        }
    }
    v.push(fam_list("large and huge structured inputs x chunk sizes, no stealing, 1..8 threads", "the hull has an interior", big, |(k, p), st| {
        let v: Vec<DVec2> = ms2(p);
        let idx: Vec<usize> = (0..p.len()).collect();
        let h = hull(p);
        if h.len() > 2 {
            st.nontrivial += 1;
        }
        st.state(&h);
        for n in [1usize, 2, 3, 8] {
            for inj in [false, true] {
                st.calls += 1;
                let o = rayon_core::mc::run(cfg(n, inj, 0), &[], || ch::convex_hull_par(&v, &idx, *k));
                match o.result {
                    Ok(r) => check_indexed(&format!("convex_hull_par chunk {k} threads {n}"), p, &idx, r, st),
                    Err(_) => st.fail(format!("chunk {k} threads {n}: panic {}", panic_text())),
                }
                if *k > 1 {
                    let o = rayon_core::mc::run(cfg(n, inj, 0), &[], || v.convex_hull_par(*k));
                    match o.result {
                        Ok(r) => check_plain(&format!("LineString2::convex_hull_par chunk {k} threads {n}"), p, r, st),
                        Err(_) => st.fail(format!("chunk {k} threads {n}: panic {}", panic_text())),
                    }
                }
            }
        }
    }));
    v
}

// ------------------------------------------------------------------ C03

/// exact position of q relative to a convex polygon (CCW): 1 inside, 0 on the border, -1 outside
fn locate(h: &[P], q: P) -> i32 {
    match h.len() {
        0 => -1,
        1 => if q == h[0] { 0 } else { -1 },
        2 => if on_segment(h[0], h[1], q) { 0 } else { -1 },
        n => {
            let m = (0..n).map(|i| cross(h[i], h[(i + 1) % n], q)).min().unwrap();
            m.signum() as i32
        }
    }
}

fn contains_case<T: GenericVector2>(tn: &str, h: &[P], listing: &[P], qs: &[P], degenerate: bool, st: &mut Local) {
    let v: Vec<T> = ms2(listing);
    for q in qs {
        let l = locate(h, *q);
        let p: T = m2(*q);
        st.calls += 1;
        let inc = ch::contains_point_inclusive(&v, p);
        ensure!(st, inc == (l >= 0), "contains_point_inclusive<{tn}>({listing:?}, {q:?}) is {inc}");
        if !degenerate {
            st.calls += 1;
            let exc = ch::contains_point_exclusive(&v, p);
            ensure!(st, exc == (l > 0), "contains_point_exclusive<{tn}>({listing:?}, {q:?}) is {exc}");
        }
        if listing.len() > 2 && listing[0] == listing[listing.len() - 1] {
            st.calls += 2;
            let inc = v.contains_point_inclusive(p);
            ensure!(st, inc == (l >= 0), "LineString2::contains_point_inclusive<{tn}>({listing:?}, {q:?}) is {inc}");
            let exc = v.contains_point_exclusive(p);
            ensure!(st, degenerate || exc == (l > 0), "LineString2::contains_point_exclusive<{tn}>({listing:?}, {q:?}) is {exc}");
        }
        st.tag(match l {
            1 => "queries inside",
            0 => "queries on the border",
            _ => "queries outside",
        });
        if st.failed() {
            return;
        }
    }
}

/// The i-th pair of directions between which there is no other one of this size, not above 2^25 or 2047
fn sliver(i: u64, wide: bool) -> (P, P) {
    if wide {
        neighbours((1 << 25) - 39, ((i * 16777 + 3) % (1 << 25)).max(1) as i64)
    } else {
        neighbours(2047 - (i % 3) as i64, (i / 3 * 4 % 2045 + 1) as i64)
    }
}
const ROUND: [(f64, (f64, f64), f64); 7] = [
    (1.0, (0.0, 0.0), 0.0),
    (1.0, (0.3, -0.7), 0.1),
    (0.37, (-0.25, 0.1), 1.0),
    (17.3, (3.1, 4.7), 2.0),
    (100.1, (-300.7, 33.3), 3.0),
    (5.5, (77.7, -77.1), 4.0),
    (0.1, (0.05, 0.05), 5.0),
];
/// Two regular polygons: the corners of the other one, moved by some distance, lie on the circle inside of the
/// first one or just beyond it in the direction of the middle of a side
fn round_hulls<T: GenericVector2 + Sync>(tn: &str, n: usize, k: u64, m: usize, dist: &[f64], st: &mut Local) {
    let (r, c, turn) = ROUND[k as usize];
    let pi = std::f64::consts::PI;
    let ring = |n: usize, r: f64, turn: f64| -> Vec<T> {
        (0..=n).map(|i| {
            let w = (i % n) as f64 * 2.0 * pi / n as f64 + turn;
            T::new_2d(sc(c.0 + r * w.cos()), sc(c.1 + r * w.sin()))
        }).collect()
    };
    let inner = r * (pi / n as f64).cos();
    let unit = r.max(c.0.abs()).max(c.1.abs());
    let a = ring(n, r, turn);
    for d in dist {
        for (r2, inside) in [(inner - d * unit, true), (inner + d * unit, false)] {
            if r2 <= 0.0 {
                continue;
            }
            // the first corner points to the middle of a side
            for side in [0, n / 2, n - 1] {
                let b = ring(m, r2, turn + (side as f64 + 0.5) * 2.0 * pi / n as f64);
                for first in [0, 1, m - 1] {
                    let mut b = b[..m].to_vec();
                    b.rotate_left(first);
                    b.push(b[0]);
                    st.calls += 2;
                    let s = ch::contains_convex_hull(&a, &b);
                    let p = rayon_core::mc::run(cfg(2, true, 0), &[], || ch::contains_convex_hull_par(&a, &b)).result.ok();
                    ensure!(st, s == inside && p == Some(inside), "polygon of {n} corners <{tn}> contains one of {m}, distance {d}, at side {side}, first {first}: {s} {p:?}");
                }
            }
        }
    }
}
/// the corners of a regular polygon, and points next to the middles of its sides and to its corners
fn round_polygon<T: GenericVector2>(tn: &str, n: usize, k: u64, dist: &[f64], st: &mut Local) {
    let (r, c, turn) = ROUND[k as usize];
    let at = |i: f64, r: f64| {
        let w = i * std::f64::consts::TAU / n as f64 + turn;
        (c.0 + r * w.cos(), c.1 + r * w.sin())
    };
    let new = |p: (f64, f64)| T::new_2d(sc(p.0), sc(p.1));
    let inner = r * (std::f64::consts::PI / n as f64).cos();
    let mut h: Vec<T> = (0..n).map(|i| new(at(i as f64, r))).collect();
    let unit = r.max(c.0.abs()).max(c.1.abs());
    for first in 0..n {
        if n > 12 && first % 5 != 0 {
            h.rotate_left(1);
            continue;
        }
        let mut closed = h.clone();
        closed.push(h[0]);
        for l in [&h, &closed] {
            for i in 0..n {
                for d in dist {
                    for (w, edge) in [(i as f64, r), (i as f64 + 0.5, inner)] {
                        // the corners are blunt: move far enough
                        let d = d * unit * if edge == r { 1.0 / (std::f64::consts::PI / n as f64).cos() } else { 1.0 };
                        for (q, inside) in [(at(w, edge - d), edge > d), (at(w, edge + d), false)] {
                            if edge < d && !inside && q == at(w, edge - d) {
                                continue;
                            }
                            st.calls += 2;
                            let (a, b) = (ch::contains_point_inclusive(l, new(q)), ch::contains_point_exclusive(l, new(q)));
                            ensure!(st, a == inside && b == inside, "polygon of {n} corners <{tn}>, first {first}, side {i}, distance {d}, {q:?}: inclusive {a} exclusive {b}");
                        }
                    }
                }
            }
        }
        h.rotate_left(1);
    }
}

fn c03(t: Tier) -> Vec<Box<dyn Family>> {
    let mut v: Vec<Box<dyn Family>> = Vec::new();
    let rule = "the polygon has at least four corners";
    let side = t.pick(4, 5);
    let polys: Vec<Vec<P>> = convex_polygons(&grid_points(side, side), 3, 20)
        .into_iter()
        .map(|h| h.iter().map(|p| (p.0 * 2, p.1 * 2)).collect())
        .collect();
    let qs: Vec<P> = (-1..=2 * side - 1).flat_map(|y| (-1..=2 * side - 1).map(move |x| (x, y))).collect();
    v.push(fam_list(
        format!("every strictly convex polygon on a {side}x{side} grid, every first corner, open and closed, every half grid point"),
        rule,
        polys,
        move |h: &Vec<P>, st| {
            st.state(h);
            if h.len() >= 4 {
                st.nontrivial += 1;
            }
            for k in 0..h.len() {
                let r = rotate(h, k);
                contains_case::<DVec2>("DVec2", h, &r, &qs, false, st);
                let c = close(&r);
                contains_case::<DVec2>("DVec2", h, &c, &qs, false, st);
                if k == 0 {
                    for_2d!(T, n, { contains_case::<T>(n, h, &c, &qs, false, st) });
                }
            }
        },
    ));
    // placements
    let small: Vec<Vec<P>> = convex_polygons(&grid_points(3, 3), 3, 9);
    let nm = FAR_MAPS.len() as u64;
    let n = small.len() as u64 * nm;
    v.push(fam(
        "every strictly convex polygon on a 3x3 grid under all placements",
        rule,
        n,
        move |i| {
            let m = FAR_MAPS[(i % nm) as usize];
            (m, small[(i / nm) as usize].clone())
        },
        |(m, h): &(Map, Vec<P>), st| {
            let map2 = |p: &P| m.on((p.0 * 2, p.1 * 2));
            // orientation may flip: recompute the cycle
            let hh = hull(&h.iter().map(map2).collect::<Vec<_>>());
            st.state(&hh);
            if hh.len() >= 4 {
                st.nontrivial += 1;
            }
            let qs: Vec<P> = (-1..=5).flat_map(|y| (-1..=5).map(move |x| (x, y))).map(|p: P| m.on(p)).collect();
            for k in 0..hh.len() {
                let r = rotate(&hh, k);
                for_2d!(T, n, {
                    contains_case::<T>(n, &hh, &close(&r), &qs, false, st);
                    contains_case::<T>(n, &hh, &r, &qs, false, st);
                });
            }
        },
    ));
    // thin polygons: the corners, the queries and the sides are next to each other
    let thin: std::sync::Arc<Vec<(i64, Vec<P>, Vec<P>)>> = std::sync::Arc::new(
        (0..16u64)
            .flat_map(|i| {
                let n = FLAT[(i % 4) as usize];
                let f = flat_points(n, i / 4);
                convex_polygons(&f, 3, 13).into_iter().map(move |h| (n, h, f.clone()))
            })
            .collect(),
    );
    let l = thin.clone();
    v.push(fam(
        "every strictly convex polygon of 13 points in and around a flat box, 4 lengths up to 65536, 4 positions, every first corner, open and closed, all of these points and their surroundings",
        rule,
        thin.len() as u64,
        move |i| l[i as usize].clone(),
        |(n, h, f): &(i64, Vec<P>, Vec<P>), st| {
            st.state(h);
            if h.len() >= 4 {
                st.nontrivial += 1;
            }
            let mut qs = f.clone();
            for d in [(1, 0), (0, 1), (-1, 0), (0, -1), (n / 4, 0), (0, n / 4), (n / 3, n / 3)] {
                qs.extend(f.iter().map(|p| (p.0 + d.0, p.1 + d.1)));
            }
            for k in 0..h.len() {
                let r = rotate(h, k);
                contains_case::<DVec2>("DVec2", h, &r, &qs, false, st);
                contains_case::<DVec2>("DVec2", h, &close(&r), &qs, false, st);
                if *n == 20 && k < 2 {
                    for_2d!(T, n, { contains_case::<T>(n, h, &close(&r), &qs, false, st) });
                }
            }
        },
    ));
    v.push(fam(
        "slivers: triangles and parallelograms of the smallest area, coordinates up to 2^25 (32 bit: 2047), every first corner, open and closed, the corners and their surroundings",
        "every case",
        4 * 1500,
        |i| (i % 2 == 0, i / 2 % 2 == 0, sliver(i / 4, i % 2 == 0)),
        |(wide, tri, (a, b)): &(bool, bool, (P, P)), st| {
            st.nontrivial += 1;
            let sum = (a.0 + b.0, a.1 + b.1);
            let (h, mut qs) = if *tri { (hull(&[(0, 0), *a, *b]), vec![sum]) } else { (hull(&[(0, 0), *a, *b, sum]), vec![]) };
            qs.extend([(0, 0), *a, *b, (a.0 - b.0, a.1 - b.1), (-a.0, -a.1), (2 * a.0 - b.0, 2 * a.1 - b.1), (1, 0), (0, 1), (a.0, a.1 + 1), (b.0 + 1, b.1), (-1, -1)]);
            let g = gcd(a.0 + b.0, a.1 + b.1);
            qs.push((sum.0 / g, sum.1 / g));
            st.state(&h);
            for k in 0..h.len() {
                let r = rotate(&h, k);
                for l in [close(&r), r] {
                    contains_case::<DVec2>("DVec2", &h, &l, &qs, false, st);
                    if !*wide {
                        contains_case::<vector_traits::glam::Vec2>("Vec2", &h, &l, &qs, false, st);
                        contains_case::<vector_traits::cgmath::Vector2<f32>>("cgmath f32", &h, &l, &qs, false, st);
                    }
                }
            }
        },
    ));
    v.push(fam(
        "regular polygons of 3 to 70 corners in 7 sizes, positions and turns, first corners, points at 11 distances from the border",
        "every case",
        68 * 7,
        |i| ((i / 7 + 3) as usize, i % 7),
        |(n, k): &(usize, u64), st| {
            st.nontrivial += 1;
            round_polygon::<DVec2>("DVec2", *n, *k, &[1e-9, 1e-6, 1e-3, 0.1, 0.7], st);
            if *n < 30 {
                round_polygon::<vector_traits::glam::Vec2>("Vec2", *n, *k, &[1e-3, 0.1, 0.7], st);
            }
        },
    ));
    // many corners: every path of the binary search
    let mut list = Vec::new();
    for n in 3..=t.pick(24usize, 64) {
        for k in 0..n {
            if n <= 24 || k % 5 == 0 {
                list.push((n, k));
            }
        }
    }
    for n in [65usize, 100, 127, 128, 129, 200, 255, 256, 257, 511, 512, 513, 600] {
        for k in [0, 1, n / 3, n / 2, n - 1] {
            list.push((n, k));
        }
    }
    v.push(fam_list("lattice polygons with many corners, every first corner", rule, list, |(n, k), st| {
        let h: Vec<P> = lattice_polygon(*n);
        if h.len() >= 4 {
            st.nontrivial += 1;
        }
        st.state(&(n, k));
        let (mx, my) = (h.iter().map(|p| p.0).max().unwrap(), h.iter().map(|p| p.1).max().unwrap());
        let step = if mx > 60 { mx / 30 } else { 1 };
        let mut qs: Vec<P> = (-1..=mx / step + 1).flat_map(|x| (-1..=my / step + 1).map(move |y| (x * step, y * step))).collect();
        qs.extend(h.iter().copied());
        for p in &h {
            qs.extend([(p.0 + 1, p.1), (p.0 - 1, p.1), (p.0, p.1 + 1), (p.0, p.1 - 1)]);
        }
        let r = rotate(&h, *k);
        contains_case::<DVec2>("DVec2", &h, &r, &qs, false, st);
        contains_case::<DVec2>("DVec2", &h, &close(&r), &qs, false, st);
    }));
    // a parabola and its axis: coordinates and products stay exact
    v.push(fam_list("a polygon of more than 65536 corners, some first corners", rule, vec![0usize, 1, 33_001, 65_536, 66_001], |k, st| {
        let h = parabola_polygon();
        st.nontrivial += 1;
        st.state(k);
        let r = rotate(&h, *k);
        let n = h.len();
        let mut qs: Vec<P> = vec![(0, 0), (0, -1), (0, 1 << 25), (1 << 14, 1 << 14)];
        for i in (0..n).step_by(997).chain([0, 1, 2, 32_767, 32_768, 65_535, 65_536, 65_537, n - 2, n - 1]) {
            let (a, b) = (h[i], h[(i + 1) % n]);
            qs.extend([a, (a.0, a.1 + 1), (a.0, a.1 - 1), (a.0 + 1, a.1), (a.0 - 1, a.1), ((a.0 + b.0) / 2, (a.1 + b.1) / 2)]);
        }
        for closed in [false, true] {
            let v: Vec<DVec2> = ms2(&if closed { close(&r) } else { r.clone() });
            for q in &qs {
                // relative to the parabola and the line that closes it
                let w = locate_in_parabola(*q);
                st.calls += 4;
                let got = (ch::contains_point_inclusive(&v, m2(*q)), ch::contains_point_exclusive(&v, m2(*q)));
                ensure!(st, got == (w >= 0, w > 0), "polygon of {n} corners from {k}, closed {closed}: {q:?} is {got:?}, exact position {w}");
                if closed {
                    let got = (v.contains_point_inclusive(m2(*q)), v.contains_point_exclusive(m2(*q)));
                    ensure!(st, got == (w >= 0, w > 0), "LineString2: polygon of {n} corners from {k}, closed {closed}: {q:?} is {got:?}, exact position {w}");
                }
            }
        }
    }));
    // hulls without an interior (what the hull algorithms return for collinear input)
    let seg: Vec<(P, P)> = (0..81).map(|i| (grid(i % 9, 3), grid(i / 9, 3))).collect();
    v.push(fam_list("closed hulls of one or two points on a 3x3 grid, every half grid point", "two distinct points", seg, |(a, b), st| {
        let (a, b) = ((a.0 * 2, a.1 * 2), (b.0 * 2, b.1 * 2));
        let h = if a == b { vec![a] } else { vec![a, b] };
        st.state(&h);
        if a != b {
            st.nontrivial += 1;
        }
        let listing = if a == b { vec![a, a] } else { vec![a, b, a] };
        let qs: Vec<P> = (-2..=7).flat_map(|y| (-2..=7).map(move |x| (x, y))).collect();
        for_2d!(T, n, {
            contains_case::<T>(n, &h, &listing, &qs, true, st);
            if a == b {
                contains_case::<T>(n, &h, &[a], &qs, true, st);
            }
        });
        // nothing is strictly inside
        for q in &qs {
            {
                let v: Vec<DVec2> = ms2(&listing);
                st.calls += 1;
                ensure!(st, !ch::contains_point_exclusive(&v, m2(*q)), "{q:?} is strictly inside of a line or a point");
            }
        }
    }));
    // an open line string encloses nothing
    v.push(fam(
        "every open line string of at most 4 points of a 3x3 grid: the line string queries answer no",
        "at least three points",
        seq_count(9, 0, 4),
        |i| grid_seq(i, 3, 3, 0, 4),
        |p: &Vec<P>, st| {
            if p.len() >= 2 && p[0] == p[p.len() - 1] || p.is_empty() {
                return;
            }
            if p.len() > 2 {
                st.nontrivial += 1;
            }
            st.state(p);
            let v: Vec<DVec2> = ms2(p);
            if p.len() == 1 {
                return;
            }
            for q in grid_points(3, 3) {
                st.calls += 2;
                ensure!(st, !v.contains_point_inclusive(m2(q)), "inclusive {q:?}");
                ensure!(st, !v.contains_point_exclusive(m2(q)), "exclusive {q:?}");
            }
        },
    ));
    v
}

const PARABOLA: i64 = 33_100;
/// (x, x²) for x from -PARABOLA to PARABOLA, and no other corners
fn parabola_polygon() -> Vec<P> {
    (-PARABOLA..=PARABOLA).map(|x| (x, x * x)).collect()
}
/// 1 inside, 0 on the outline, -1 outside
fn locate_in_parabola(q: P) -> i32 {
    if q.0.abs() > PARABOLA || q.1 > PARABOLA * PARABOLA {
        return -1;
    }
    // at whole numbers of x the outline is the parabola itself
    let below = q.1.cmp(&(q.0 * q.0)) as i32;
    let above = (PARABOLA * PARABOLA).cmp(&q.1) as i32;
    below.min(above)
}

// ------------------------------------------------------------------ C04

fn c04(t: Tier) -> Vec<Box<dyn Family>> {
    let mut v: Vec<Box<dyn Family>> = Vec::new();
    // outer hulls on the even points of a 5x5 grid, inner hulls on all of its points
    let mut outer: Vec<Vec<P>> = convex_polygons(&grid_points(3, 3), 2, 9)
        .into_iter()
        .filter(|h| h.len() >= 2)
        .map(|h| h.iter().map(|p| (p.0 * 2, p.1 * 2)).collect())
        .collect();
    outer.push(lattice_polygon(8).iter().map(|p| (p.0 - 1, p.1 - 1)).collect());
    let mut inner: Vec<Vec<P>> = vec![vec![]];
    let pts = grid_points(5, 5);
    inner.extend(convex_polygons(&pts, 1, t.pick(3, 4)));
    let (no, ni) = (outer.len() as u64, inner.len() as u64);
    let dec = move |i: u64| {
        let a = outer[(i % no) as usize].clone();
        let b = inner[(i / no) as usize].clone();
        (a, b)
    };
    v.push(fam(
        "every hull on a 3x3 grid x every hull of few corners on the half grid: sequential, and parallel on the default schedule",
        "the inner hull has at least two corners",
        no * ni,
        dec.clone(),
        |(a, b): &(Vec<P>, Vec<P>), st| {
            if b.len() > 1 {
                st.nontrivial += 1;
            }
            let want = b.iter().all(|q| locate(a, *q) >= 0);
            st.state(&(a, want));
            st.tag(if want { "contained" } else { "not contained" });
            for k in [0, a.len() / 2, a.len() - 1] {
                for j in 0..b.len().max(1) {
                    let va: Vec<DVec2> = ms2(&close(&rotate(a, k)));
                    let vb: Vec<DVec2> = if b.is_empty() { vec![] } else { ms2(&close(&rotate(b, j))) };
                    st.calls += 2;
                    let s = ch::contains_convex_hull(&va, &vb);
                    ensure!(st, s == want, "contains_convex_hull({va:?}, {vb:?}) is {s}");
                    let p = rayon_core::mc::run(cfg(2, true, 0), &[], || ch::contains_convex_hull_par(&va, &vb));
                    let p = p.result.ok();
                    ensure!(st, p == Some(want), "contains_convex_hull_par({va:?}, {vb:?}) is {p:?}");
                }
            }
        },
    ));
    let thin: std::sync::Arc<Vec<Vec<Vec<P>>>> =
        std::sync::Arc::new((0..16u64).map(|i| convex_polygons(&flat_points(FLAT[(i % 4) as usize], i / 4), 1, t.pick(4, 5))).collect());
    let most = thin.iter().map(|l| l.len() as u64).max().unwrap();
    v.push(fam(
        "every pair of hulls of few corners of 13 points in and around a flat box, 4 lengths up to 65536, 4 positions: sequential, and parallel on the default schedule",
        "the inner hull has at least two corners",
        most * most * 16,
        move |i| {
            let l = &thin[(i % 16) as usize];
            let k = l.len() as u64;
            (l[(i / 16 % most % k) as usize].clone(), l[(i / 16 / most % k) as usize].clone())
        },
        |(a, b): &(Vec<P>, Vec<P>), st| {
            if a.len() < 2 {
                return;
            }
            if b.len() > 1 {
                st.nontrivial += 1;
            }
            let want = b.iter().all(|q| locate(a, *q) >= 0);
            st.state(&(a, want));
            let (va, vb): (Vec<DVec2>, Vec<DVec2>) = (ms2(&close(a)), ms2(&close(b)));
            st.calls += 2;
            let s = ch::contains_convex_hull(&va, &vb);
            ensure!(st, s == want, "contains_convex_hull({va:?}, {vb:?}) is {s}");
            let p = rayon_core::mc::run(cfg(2, true, 0), &[], || ch::contains_convex_hull_par(&va, &vb));
            let p = p.result.ok();
            ensure!(st, p == Some(want), "contains_convex_hull_par({va:?}, {vb:?}) is {p:?}");
        },
    ));
    let stride = t.pick(41, 7);
    let d2 = dec.clone();
    v.push(fam(
        "a spread of those pairs: every steal pattern with up to 3 threads",
        "more than one schedule exists",
        no * ni / stride * 4,
        move |i| {
            let c = [cfg(1, true, 0), cfg(2, false, 0), cfg(2, true, 0), cfg(3, true, 0)][(i % 4) as usize];
            (c, d2(i / 4 * stride))
        },
        |(c, (a, b)): &(Config, (Vec<P>, Vec<P>)), st| contains_par(a, b, *c, false, st),
    ));
    let stride = t.pick(2503, 211);
    v.push(fam(
        "a spread of those pairs: a preemption between any two vector operations inside the tasks",
        "more than one schedule exists",
        no * ni / stride,
        move |i| dec(i * stride),
        |(a, b): &(Vec<P>, Vec<P>), st| contains_par(a, b, cfg(2, true, 1), true, st),
    ));
    // many corners
    let mut list = Vec::new();
    for n in [4usize, 7, 9, 16, 24] {
        for m in [3usize, 5, 8, 12] {
            for dx in [-3i64, 0, 2, 7, 15] {
                list.push((n, m, dx));
            }
        }
    }
    v.push(fam_list("lattice polygons with many corners", "every case", list, |(n, m, dx), st| {
        st.nontrivial += 1;
        let a: Vec<P> = lattice_polygon(*n).iter().map(|p| (p.0 * 5, p.1 * 5)).collect();
        let b: Vec<P> = lattice_polygon(*m).iter().map(|p| (p.0 + dx, p.1 + 3)).collect();
        for (a, b) in [(&a, &b), (&b, &a), (&a, &a)] {
            let want = b.iter().all(|q| locate(a, *q) >= 0);
            st.state(&(n, m, dx, want));
            for k in 0..a.len() {
                let va: Vec<DVec2> = ms2(&close(&rotate(a, k)));
                let vb: Vec<DVec2> = ms2(&close(b));
                st.calls += 2;
                let s = ch::contains_convex_hull(&va, &vb);
                ensure!(st, s == want, "contains_convex_hull({va:?}, {vb:?}) is {s}");
                for n in [1usize, 4] {
                    let p = rayon_core::mc::run(cfg(n, true, 0), &[], || ch::contains_convex_hull_par(&va, &vb));
                    let p = p.result.ok();
                    ensure!(st, p == Some(want), "contains_convex_hull_par({va:?}, {vb:?}) is {p:?}");
                }
            }
        }
    }));
    v.push(fam(
        "regular polygons of 3 to 30 corners in 7 sizes, positions and turns, and smaller ones that touch a circle between their corners and their sides but for 5 distances, every corner first",
        "every case",
        28 * 7 * 28,
        |i| ((i / 7 % 28 + 3) as usize, i % 7, (i / 196 + 3) as usize),
        |(n, k, m): &(usize, u64, usize), st| {
            st.nontrivial += 1;
            round_hulls::<DVec2>("DVec2", *n, *k, *m, &[1e-9, 1e-6, 1e-3, 0.1], st);
            round_hulls::<vector_traits::glam::Vec2>("Vec2", *n, *k, *m, &[1e-3, 0.1], st);
        },
    ));
    let at = vec![None, Some(0usize), Some(2), Some(33_100), Some(65_535), Some(65_536), Some(66_198), Some(66_199), Some(66_200)];
    v.push(fam_list("hulls of more than 65536 corners as the inner and as the outer one, no or one corner sticks out", "every case", at, |out, st| {
        st.nontrivial += 1;
        st.state(out);
        let big = parabola_polygon();
        // some of its corners, one moved outwards
        let few: Vec<P> = [0usize, 1, 2, 1000, 33_100, 65_535, 65_536, 65_537, 66_198, 66_199, 66_200].iter().map(|i| (big[*i].0, big[*i].1 - i64::from(*out == Some(*i)))).collect();
        look(&big, &few, out.is_none(), st);
        // all of its corners, one moved outwards, in the box whose lower side is a tangent
        let mut moved = big.clone();
        if let Some(k) = out {
            moved[*k].1 -= 1;
        }
        let (p, x) = (PARABOLA, out.map_or(7, |k| big[k].0));
        let outer = match out {
            // the line through the first or the last two corners
            Some(0) => vec![(-p, p * p), (p, 2 * p - 3 * p * p), (p, p * p)],
            Some(66_200) => vec![(-p, 2 * p - 3 * p * p), (p, p * p), (-p, p * p)],
            _ => vec![(-p, -2 * x * p - x * x), (p, 2 * x * p - x * x), (p, p * p), (-p, p * p)],
        };
        look(&outer, &moved, out.is_none(), st);
        fn look(a: &[P], b: &[P], want: bool, st: &mut Local) {
            let (va, vb): (Vec<DVec2>, Vec<DVec2>) = (ms2(&close(a)), ms2(&close(b)));
            st.calls += 1;
            let s = ch::contains_convex_hull(&va, &vb);
            ensure!(st, s == want, "contains_convex_hull of {} and {} corners is {s}, expected {want}", a.len(), b.len());
            for n in [1usize, 2, 3, 8] {
                st.calls += 1;
                let p = rayon_core::mc::run(cfg(n, true, 0), &[], || ch::contains_convex_hull_par(&va, &vb));
                let p = p.result.ok();
                ensure!(st, p == Some(want), "contains_convex_hull_par of {} and {} corners on {n} threads is {p:?}, expected {want}", a.len(), b.len());
            }
        }
    }));
    // a single corner that sticks out, at every position
    let mut list = Vec::new();
    for n in [6usize, 9, 16, 24, 33, 65, 129, 257, 600] {
        let step = (n / 65).max(1);
        for out in (0..n).step_by(step).chain([n - 1]) {
            list.push((n, out));
        }
    }
    v.push(fam_list("lattice polygons with one corner moved outwards, every corner", "every case", list, |(n, out), st| {
        let a: Vec<P> = lattice_polygon(*n).iter().map(|p| (p.0 * 64, p.1 * 64)).collect();
        let c = a.iter().fold((0, 0), |s, p| (s.0 + p.0, s.1 + p.1));
        let m = a.len() as i64;
        let mut b = a.clone();
        let p = a[*out];
        b[*out] = (p.0 + (p.0 * m - c.0).signum(), p.1 + (p.1 * m - c.1).signum());
        if hull(&b).len() != b.len() {
            return;
        }
        st.nontrivial += 1;
        st.state(&(n, out));
        for k in [0, 1, *out, (*out + 1) % n, n / 2] {
            let va: Vec<DVec2> = ms2(&close(&rotate(&a, (k * 7) % n)));
            for (b, want) in [(&b, false), (&a, true)] {
                let vb: Vec<DVec2> = ms2(&close(&rotate(b, k)));
                st.calls += 3;
                let s = ch::contains_convex_hull(&va, &vb);
                ensure!(st, s == want, "contains_convex_hull({va:?}, {vb:?}) is {s}");
                for n in [2usize, 8] {
                    let p = rayon_core::mc::run(cfg(n, true, 0), &[], || ch::contains_convex_hull_par(&va, &vb));
                    let p = p.result.ok();
                    ensure!(st, p == Some(want), "contains_convex_hull_par({va:?}, {vb:?}) is {p:?}");
                }
            }
        }
    }));
    v
}

fn contains_par(a: &[P], b: &[P], c: Config, sv: bool, st: &mut Local) {
    let want = b.iter().all(|q| locate(a, *q) >= 0);
    st.state(&(a, want, c.threads));
    let va: Vec<DVec2> = ms2(&close(a));
    let vb: Vec<DVec2> = ms2(&close(b));
    let sa: Vec<S2> = ms2(&close(a));
    let sb: Vec<S2> = ms2(&close(b));
    let mut bad: Option<String> = None;
    let n = explore(
        c,
        st,
        || if sv { ch::contains_convex_hull_par(&sa, &sb) } else { ch::contains_convex_hull_par(&va, &vb) },
        |st, r, choices| {
            st.calls += 1;
            if *r != Ok(want) && bad.is_none() {
                bad = Some(format!("contains_convex_hull_par({a:?}, {b:?}) is {r:?} under the schedule {:?}", taken(choices)));
            }
        },
    );
    if n > 1 {
        st.nontrivial += 1;
    }
    if let Some(b) = bad {
        st.fail(b);
    }
}

// ------------------------------------------------------------------ C25

fn orient_in<T: GenericVector2>(n: &str, p: &[P], e: i32, st: &mut Local) {
    let c = cross(p[0], p[1], p[2]);
    let k = 2f64.powi(e);
    let v: Vec<T> = p.iter().map(|p| T::new_2d(sc(p.0 as f64 * k), sc(p.1 as f64 * k))).collect();
    let want = c as f64 * k * k;
    st.calls += 4;
    let o = ch::point_orientation(v[0], v[1], v[2]);
    ensure!(st, o.is_left() == (c > 0), "point_orientation<{n}> left, cross {want}");
    ensure!(st, (o == ch::Orientation::Left) == (c > 0), "point_orientation<{n}> Left, cross {want}");
    ensure!(st, (o == ch::Orientation::Collinear) == (c == 0), "point_orientation<{n}> collinear, cross {want}");
    ensure!(st, o.is_left_or_collinear() == (c >= 0), "point_orientation<{n}> left or collinear, cross {want}");
    ensure!(st, (o == ch::Orientation::Right) == (c < 0), "point_orientation<{n}> right, cross {want}");
    ensure!(st, ch::is_point_left(v[0], v[1], v[2]) == (c > 0), "is_point_left<{n}> cross {want}");
    ensure!(st, ch::is_point_left_allow_collinear(v[0], v[1], v[2]) == (c >= 0), "is_point_left_allow_collinear<{n}> cross {want}");
    ensure!(st, f(ch::cross_2d(v[0], v[1], v[2])) == want, "cross_2d<{n}> cross {want}");
}
fn orient_case(p: &[P], scale: (i32, i32), st: &mut Local) {
    let c = cross(p[0], p[1], p[2]);
    if c != 0 {
        st.nontrivial += 1;
    }
    st.state(&(c, scale));
    for_2d!(T, n, {
        let e = if std::mem::size_of::<<T as HasXY>::Scalar>() == 4 { scale.1 } else { scale.0 };
        orient_in::<T>(n, p, e, st);
    });
}

/// Powers of two that all coordinates are multiplied with, (64 bit, 32 bit): the cross products stay
/// exact and above the epsilon below which three points count as collinear.
const SCALES: [(i32, i32); 8] = [(0, 0), (-44, -16), (-200, -40), (-1, -1), (-20, -9), (10, 3), (40, 30), (300, 50)];

/// Figures so small that their cross products are below the epsilon of the scalar type: 2^-13 for f32, 2^-27 for f64
fn tiny<T: GenericVector2>() -> [T; 4] {
    let s = if std::mem::size_of::<T::Scalar>() == 4 { 2f64.powi(-13) } else { 2f64.powi(-27) };
    [v2(0.0, 0.0), v2(s, 0.0), v2(s, s), v2(0.0, s)]
}
fn tiny_triangle(st: &mut Local) {
    st.nontrivial += 1;
    for_2d!(T, n, {
        let p = tiny::<T>();
        st.calls += 1;
        let r = ch::point_orientation(p[0], p[1], p[2]);
        if r == ch::Orientation::Collinear {
            st.fail_key("point_orientation/tiny-triangle-collinear", format!("{n}: the orientation of {:?}, {:?}, {:?} is collinear", p[0], p[1], p[2]));
        } else {
            ensure!(st, r == ch::Orientation::Left, "{n}: a triangle to the left isn't to the left");
        }
    });
}
fn tiny_square(st: &mut Local) {
    st.nontrivial += 1;
    for_2d!(T, n, {
        let p = tiny::<T>();
        let (all, ix) = (p.to_vec(), [0usize, 1, 2, 3]);
        let by = |r: Result<Vec<usize>, linestring::LinestringError>| r.map(|r| r.iter().map(|i| p[*i]).collect::<Vec<T>>());
        let r = [
            ("gift_wrap", ch::gift_wrap(&all)),
            ("graham_scan", ch::graham_scan(&all)),
            ("indexed_gift_wrap", by(ch::indexed_gift_wrap(&all, &ix))),
            ("indexed_graham_scan", by(ch::indexed_graham_scan(&all, &ix))),
            ("convex_hull", all.convex_hull()),
        ];
        for (name, r) in r {
            st.calls += 1;
            let Ok(r) = r else {
                st.fail(format!("{n}: {name} of {p:?} is an error"));
                continue;
            };
            let want = [p[0], p[1], p[2], p[3], p[0]];
            if r.len() < 5 && r.iter().all(|x| p.contains(x)) {
                st.fail_key(&format!("{name}/tiny-square-loses-corners"), format!("{n}: {name} of {p:?} is {r:?}"));
            } else {
                ensure!(st, r == want, "{n}: {name} of {p:?} is {r:?}");
            }
        }
    });
}

fn c25(t: Tier) -> Vec<Box<dyn Family>> {
    let w = t.pick(5u64, 7);
    let rule = "the three points are not collinear";
    let maps = FAR_MAPS.len() as u64;
    let n = (w * w).pow(3);
    vec![
        fam_list("a triangle with a cross product below the epsilon of the scalar type", "always", vec![0], |_: &i32, st| tiny_triangle(st)),
        fam(
            format!("every point triple of a {w}x{w} grid, repeated points included, under all placements"),
            rule,
            n * maps,
            move |i| FAR_MAPS[(i % maps) as usize].all(&grid_seq(i / maps, w, w, 3, 3)),
            |p: &Vec<P>, st| orient_case(p, (0, 0), st),
        ),
        fam(
            format!("every point triple of a {w}x{w} grid around the origin, multiplied with {} powers of two", SCALES.len()),
            rule,
            n * SCALES.len() as u64,
            move |i| {
                let k = SCALES.len() as u64;
                let p: Vec<P> = grid_seq(i / k, w, w, 3, 3).iter().map(|p| (p.0 - 2, p.1 - 2)).collect();
                (SCALES[(i % k) as usize], p)
            },
            |(k, p): &((i32, i32), Vec<P>), st| orient_case(p, *k, st),
        ),
        fam(
            "every triple of 13 points in and around a flat box, 6 lengths up to 2^20, 4 positions",
            rule,
            13u64.pow(3) * 24,
            |i| {
                let n = [20, 500, 2000, 4096, 65536, 1 << 20][(i % 6) as usize];
                let f = flat_points(n, i / 6 % 4);
                (n, seq_decode(i / 24, 13, 3, 3).iter().map(|k| f[*k as usize]).collect::<Vec<P>>())
            },
            |(n, p): &(i64, Vec<P>), st| {
                if *n <= 2000 {
                    orient_case(p, (0, 0), st)
                } else {
                    orient_in::<DVec2>("DVec2", p, 0, st);
                    orient_in::<vector_traits::cgmath::Vector2<f64>>("cgmath f64", p, 0, st);
                }
            },
        ),
        fam(
            "slivers: the smallest triangles with coordinates up to 2^25 (32 bit: 2047), every order",
            rule,
            2 * 20000,
            |i| (i % 2 == 0, sliver(i / 2, i % 2 == 0)),
            |(wide, (a, b)): &(bool, (P, P)), st| {
                for k in 0..fact(3) {
                    let p: Vec<P> = permute(k, &[(0, 0), *a, *b]);
                    let q: Vec<P> = permute(k, &[*a, *b, (a.0 - b.0, a.1 - b.1)]);
                    for p in [p, q] {
                        if *wide {
                            orient_in::<DVec2>("DVec2", &p, 0, st);
                            orient_in::<vector_traits::cgmath::Vector2<f64>>("cgmath f64", &p, 0, st);
                        } else {
                            orient_case(&p, (0, 0), st);
                        }
                    }
                }
                st.nontrivial += 1;
            },
        ),
        // thin triangles: the corners are far away from each other, the area is the smallest possible
        fam(
            "every thin triangle (0,0) (a,b) (c,d) with coordinates from 0 to 40 and a doubled area of -1, 0 or 1",
            rule,
            41 * 41 * 41,
            |i| {
                let (a, b, c) = ((i % 41) as i64, (i / 41 % 41) as i64, (i / 1681) as i64);
                let mut v = Vec::new();
                for d in 0..=40i64 {
                    let x = a * d - b * c;
                    if x.abs() <= 1 {
                        v.push(vec![(0, 0), (a, b), (c, d)]);
                    }
                }
                v
            },
            |l: &Vec<Vec<P>>, st| {
                for p in l {
                    for (i, j, k) in [(0, 1, 2), (1, 0, 2), (2, 1, 0)] {
                        orient_case(&[p[i], p[j], p[k]], (0, 0), st);
                    }
                }
            },
        ),
    ]
}

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C25",
            families: |t| with_digits(with_zeros(c25(t), c25, &["of a 5x5 grid, repeated"]), c25, &["of a 5x5 grid, repeated"]),
            bounds: "all triples of points of a 5x5 (thorough 7x7) grid under 10 placements and 8 scales, all thin triangles with coordinates up to 40, all triples of 13 points in and around flat boxes, every vector type",
            assumptions: &["coordinates and cross products are exactly representable"],
        },
        Prop {
            id: "C01",
            families: |t| with_digits(with_zeros(with_scales(c01, t, &["of a 3x3 grid", "coordinates that are rounded"], &CROSS_SCALES), c01, &["at most 5 points of a 3x3 grid", "index list of at most 6"]), c01, &["at most 5 points of a 3x3 grid", "index list of at most 6"]),
            bounds: "all sequences up to 5 (thorough 7) points of a 3x3 grid and up to 4 (5) points of a 4x4 grid under 10 placements, all subsets of a 4x4 grid in 8 arrangements, index lists up to 6 (7), all sequences of up to 4 of 13 points in and around flat boxes 20 to 65536 long and 1 high, structured inputs up to 100 points and of more than 65536; 5 scales; 3 to 5 vector types",
            assumptions: &["coordinates and their products are exactly representable, so that the exact integer hull is the only right answer"],
        },
        Prop {
            id: "C02",
            families: |t| with_digits(with_zeros(with_scales(c02, t, &["subsets of a 3x3 grid with"], &CROSS_SCALES), c02, &["subsets of a 3x3 grid with"]), c02, &["subsets of a 3x3 grid with"]),
            bounds: "1 to 3 worker threads, all steal decisions of every fork, all orders in which ready tasks are resumed, at most 1 (thorough 2) preemptions between vector operations inside the tasks; small point sequences of a 3x3 grid, flat boxes, longer structured inputs up to more than 65536 points, several chunk sizes",
            assumptions: &["tasks interact only through what the vector operations and the fork-join calls order; other shared state is preempted only at those points", "rayon's iterators are the real ones, its thread pool is replaced by the controlled scheduler"],
        },
        Prop {
            id: "C03",
            families: |t| with_digits(with_zeros(with_scales(c03, t, &["under all placements", "one or two points"], &CROSS_SCALES), c03, &["under all placements", "one or two points"]), c03, &["under all placements"]),
            bounds: "all strictly convex polygons of a 4x4 (thorough 5x5) grid with every first corner, open and closed, all half grid points; lattice polygons up to 24 (64) corners, one of more than 65536; flat polygons with points in and around them; 5 scales",
            assumptions: &["exactly representable coordinates"],
        },
        Prop {
            id: "C04",
            families: |t| with_digits(with_zeros(with_scales(c04, t, &["sequential, and parallel"], &CROSS_SCALES), c04, &["half grid: sequential"]), c04, &["half grid: sequential"]),
            bounds: "all hulls of a 3x3 grid against all hulls with at most 3 (thorough 4) corners of the half grid; flat hulls; one of more than 65536 corners as the inner and as the outer one; all steal patterns with up to 3 threads, one preemption inside the tasks; 5 scales",
            assumptions: &["exactly representable coordinates", "rayon's thread pool is replaced by the controlled scheduler"],
        },
    ]
}
