//! C24 histories of the sweep-line builders, C22 inputs that are not finite.
use super::seg::{many_pairs, report_verdict, Mode, Report, Seg, Which};
use crate::ensure;
use crate::for_2d;
use crate::fw::*;
use crate::geo::*;
use crate::sched::{explore, taken};
use linestring::linestring_2d::convex_hull as ch;
use linestring::linestring_2d::indexed_intersection::IntersectionTester;
use linestring::linestring_2d::intersection::IntersectionData;
use linestring::linestring_2d::{Line2, LineString2};
use linestring::LinestringError;
use rayon_core::mc::Config;
use vector_traits::glam::DVec2;
use vector_traits::GenericVector2;

// ------------------------------------------------------------------ C24

#[derive(Clone, Copy, Debug, PartialEq)]
enum Op {
    Ignore(bool),
    First(bool),
    Add(usize),
}
/// figures with crossings, touching ends, overlaps and repeated segments across the batches
const BATCHES: [&[Seg]; 5] = [
    &[],
    &[((0, 0), (16, 16))],
    &[((0, 16), (16, 0)), ((16, 16), (32, 0))],
    &[((16, 0), (16, 16)), ((0, 0), (16, 0)), ((8, 8), (24, 8))],
    &[((16, 16), (0, 0)), ((4, 4), (8, 8)), ((8, 0), (8, 0))],
];
const OPS: [Op; 9] = [
    Op::Ignore(true),
    Op::Ignore(false),
    Op::First(true),
    Op::First(false),
    Op::Add(0),
    Op::Add(1),
    Op::Add(2),
    Op::Add(3),
    Op::Add(4),
];

fn normal(s: Seg) -> Seg {
    let k = |p: P| (p.1, p.0);
    if k(s.0) < k(s.1) {
        s
    } else {
        (s.1, s.0)
    }
}

fn history_lines<T: GenericVector2>(n: &str, ops: &[Op], batches: &[Vec<Seg>], m: Mode, s: &[Seg], st: &mut Local) {
    let t = tol::<T::Scalar>(max_abs(&ends(s))) * 16.0;
    let run = || -> Result<(Report, bool), LinestringError> {
        let mut x = IntersectionData::<T>::default();
        let before = *x.get_sweepline_pos();
        for o in ops {
            x = match *o {
                Op::Ignore(b) => x.with_ignore_end_point_intersections(b)?,
                Op::First(b) => x.with_stop_at_first_intersection(b)?,
                Op::Add(k) => {
                    x.with_lines(batches[k].iter().map(|s| Line2::new(m2(s.0), m2(s.1))))?
                }
            };
        }
        let got: Option<Vec<Seg>> = x
            .get_lines()
            .iter()
            .map(|l| Some((int2(l.start)?, int2(l.end)?)))
            .collect();
        let want: Vec<Seg> = s.iter().map(|s| normal(*s)).collect();
        let lines = got.map(|g| g.into_iter().map(normal).collect::<Vec<_>>()) == Some(want)
            && *x.get_sweepline_pos() == before;
        let it = x.compute()?;
        let len = it.len();
        let r: Report = it.map(|(p, l)| (un2(p), l)).collect();
        Ok((r.clone(), lines && len == r.len()))
    };
    st.calls += ops.len() as u64 + 1;
    match run() {
        Err(e) => st.fail(format!("{n}: {e:?}")),
        Ok((r, kept)) => {
            ensure!(
                st,
                kept,
                "{n}: the lines of the search, its position or the number of results are wrong"
            );
            if let Err(e) = report_verdict(s, &r, m, t) {
                st.fail(format!("{n}: {m:?}: {e}; reported {r:?}"));
            }
        }
    }
}

fn ends(s: &[Seg]) -> Vec<P> {
    s.iter().flat_map(|s| [s.0, s.1]).collect()
}

fn history_edges<T: GenericVector2>(n: &str, ops: &[Op], batches: &[Vec<Seg>], m: Mode, s: &[Seg], st: &mut Local) {
    let t = tol::<T::Scalar>(max_abs(&ends(s))) * 16.0;
    // one table for all batches; vertices shared by position
    let mut table: Vec<P> = vec![(-5, -5)];
    let mut at = std::collections::HashMap::from([(table[0], 0)]);
    for b in batches {
        for p in ends(b) {
            at.entry(p).or_insert_with(|| {
                table.push(p);
                table.len() - 1
            });
        }
    }
    let ix = |p: P| at[&p];
    let edges =
        |s: &[Seg]| -> Vec<(usize, usize)> { s.iter().map(|s| (ix(s.0), ix(s.1))).collect() };
    let run = || -> Result<(Report, bool), LinestringError> {
        let mut x = IntersectionTester::<T>::new(ms2(&table));
        for o in ops {
            x = match *o {
                Op::Ignore(b) => x.with_ignore_end_point_intersections(b)?,
                Op::First(b) => x.with_stop_at_first_intersection(b)?,
                Op::Add(k) => x.with_edges(&edges(&batches[k]))?,
            };
        }
        let lines = x.get_lines() == edges(s) && x.get_sweepline_pos().1.is_none();
        let (v, it) = x.compute()?;
        let kept = v.len() >= table.len() && ints2(&v[..table.len()]).as_ref() == Some(&table);
        Ok((
            it.map(|(i, l)| (un2(v[i]), l.to_vec())).collect(),
            lines && kept,
        ))
    };
    st.calls += ops.len() as u64 + 1;
    match run() {
        Err(e) => st.fail(format!("{n}, indexed: {e:?}")),
        Ok((r, kept)) => {
            ensure!(
                st,
                kept,
                "{n}, indexed: the edges or vertices of the search are wrong"
            );
            if let Err(e) = report_verdict(s, &r, m, t) {
                st.fail(format!("{n}, indexed: {m:?}: {e}; reported {r:?}"));
            }
        }
    }
}

fn figures() -> Vec<Vec<Seg>> {
    BATCHES.iter().map(|b| b.to_vec()).collect()
}
/// n lines, horizontal and vertical ones in turn, in batches of `size`
fn many(n: i64, size: usize) -> Vec<Vec<Seg>> {
    let all: Vec<Seg> = (0..n)
        .map(|i| {
            let k = i / 2 * 7 % (n | 1) * 4;
            if i % 2 == 0 { ((-2, k), (4 * n, k)) } else { ((k, 4 * n), (k, -2)) }
        })
        .collect();
    all.chunks(size).map(|c| c.to_vec()).collect()
}

fn replay(ops: &[Op], batches: &[Vec<Seg>]) -> (Mode, Vec<Seg>) {
    let (mut m, mut s) = (
        Mode {
            ignore: false,
            first: false,
        },
        Vec::new(),
    );
    for o in ops {
        match *o {
            Op::Ignore(b) => m.ignore = b,
            Op::First(b) => m.first = b,
            Op::Add(k) => s.extend_from_slice(&batches[k]),
        }
    }
    (m, s)
}

fn c24(t: Tier) -> Vec<Box<dyn Family>> {
    let mut v: Vec<Box<dyn Family>> = Vec::new();
    let rule = "at least two batches have lines";
    let k = t.pick(5, 6);
    let decode = |k: u32| {
        move |i: u64| -> Vec<Op> {
            seq_decode(i, 9, 0, k)
                .iter()
                .map(|c| OPS[*c as usize])
                .collect()
        }
    };
    let nontrivial = |ops: &[Op]| {
        ops.iter()
            .filter(|o| matches!(o, Op::Add(k) if *k > 0))
            .count()
            > 1
    };
    v.push(fam(
        format!("every history of up to {k} of 9 operations (set or clear an option, add one of 5 batches), both searches"),
        rule,
        seq_count(9, 0, k),
        decode(k),
        move |ops: &Vec<Op>, st| {
            let b = figures();
            let (m, s) = replay(ops, &b);
            st.nontrivial += u64::from(nontrivial(ops));
            st.state(&(m.ignore, m.first, &s));
            history_lines::<DVec2>("DVec2", ops, &b, m, &s, st);
            history_edges::<DVec2>("DVec2", ops, &b, m, &s, st);
        },
    ));
    v.push(fam(
        "every history of up to 3 operations, every vector type",
        rule,
        seq_count(9, 0, 3),
        decode(3),
        move |ops: &Vec<Op>, st| {
            let b = figures();
            let (m, s) = replay(ops, &b);
            st.nontrivial += u64::from(nontrivial(ops));
            for_2d!(T, n, {
                history_lines::<T>(n, ops, &b, m, &s, st);
                history_edges::<T>(n, ops, &b, m, &s, st);
            });
        },
    ));
    let long: Vec<(i64, usize, usize, u64)> = {
        let ns: &[i64] = t.pick(&[9, 32, 33, 64, 130], &[9, 32, 33, 64, 65, 130, 257, 300]);
        let mut l = Vec::new();
        for n in ns {
            for size in [1, 2, 7, 32, 1000] {
                for at in 0..4 {
                    for mode in 0..16 {
                        l.push((*n, size, at, mode));
                    }
                }
            }
        }
        l
    };
    v.push(fam_list(
        "many lines in batches of 1, 2, 7, 32 or all at once, options set before, between and after the batches and changed or left alone later, both searches",
        rule,
        long,
        |(n, size, at, mode): &(i64, usize, usize, u64), st| {
            let b = many(*n, *size);
            let mut ops: Vec<Op> = (0..b.len()).map(Op::Add).collect();
            let i = [0, b.len() / 2, b.len() - b.len().min(1), b.len()][*at];
            ops.insert(i, Op::Ignore(mode & 1 != 0));
            ops.insert((i + 1).min(ops.len()), Op::First(mode & 2 != 0));
            if mode & 4 != 0 {
                ops.push(Op::Ignore(mode & 8 != 0));
                ops.insert(0, Op::First(mode & 2 == 0));
            }
            let (m, s) = replay(&ops, &b);
            st.nontrivial += u64::from(b.len() > 1);
            st.state(&(n, size, at, mode));
            history_lines::<DVec2>("DVec2", &ops, &b, m, &s, st);
            history_edges::<DVec2>("DVec2", &ops, &b, m, &s, st);
        },
    ));
    v.push(fam_list("80000 lines in two to four batches, both searches", rule, (0..12usize).collect(), |k: &usize, st| {
        let cuts: &[usize] = [&[40_000usize][..], &[65_535, 65_537], &[1, 65_536, 79_999]][k / 4];
        many_pairs(if k % 2 == 0 { Which::Lines } else { Which::Indexed }, [6, 7, 5, 4][(k / 2 % 2) + 2 * (k / 4 % 2)], cuts, st);
    }));
    v
}

// ------------------------------------------------------------------ C22

const BAD: [f64; 3] = [f64::NAN, f64::INFINITY, f64::NEG_INFINITY];

type F = (f64, f64);
/// 5 ordinary points, and bad values in the first, the second and both coordinates
fn alphabet(k: u64) -> F {
    match k {
        0 => (0.0, 0.0),
        1 => (4.0, 0.0),
        2 => (1.0, 4.0),
        3 => (2.0, 1.0),
        4 => (2.0, 0.0),
        k => {
            let b = BAD[((k - 5) % 3) as usize];
            match (k - 5) / 3 {
                0 => (b, 1.0),
                1 => (2.0, b),
                _ => (b, b),
            }
        }
    }
}
const LETTERS: u64 = 14;
fn bad(p: F) -> bool {
    !p.0.is_finite() || !p.1.is_finite()
}
fn vs<T: GenericVector2>(p: &[F]) -> Vec<T> {
    p.iter().map(|p| v2(p.0, p.1)).collect()
}
fn different(p: &[F]) -> usize {
    let mut b: Vec<(u64, u64)> = p.iter().map(|p| (p.0.to_bits(), p.1.to_bits())).collect();
    b.sort();
    b.dedup();
    b.len()
}

#[allow(deprecated)]
fn hulls<T: GenericVector2>(n: &str, p: &[F], st: &mut Local) {
    let v: Vec<T> = vs(p);
    let must_fail = p.iter().any(|p| bad(*p)) && different(p) > 2;
    let idx: Vec<usize> = (0..v.len()).collect();
    let mut say = |name: &str, ok: bool| {
        st.calls += 1;
        ensure!(
            st,
            !(ok && must_fail),
            "{n}: {name} returned a hull of {p:?}"
        );
    };
    say("gift_wrap", ch::gift_wrap(&v).is_ok());
    say("graham_scan", ch::graham_scan(&v).is_ok());
    say("graham_scan_wo_atan2", ch::graham_scan_wo_atan2(&v).is_ok());
    say("convex_hull", v.convex_hull().is_ok());
    say("indexed_gift_wrap", ch::indexed_gift_wrap(&v, &idx).is_ok());
    say(
        "indexed_graham_scan",
        ch::indexed_graham_scan(&v, &idx).is_ok(),
    );
}

fn hull_unlisted(p: &[F], idx: &[usize], st: &mut Local) {
    let v: Vec<DVec2> = vs(p);
    let listed: Vec<F> = idx.iter().map(|i| p[*i]).collect();
    let good: Option<Vec<P>> = idx.iter().map(|i| int2(v[*i])).collect();
    for (name, r) in [
        ("indexed_gift_wrap", ch::indexed_gift_wrap(&v, idx)),
        ("indexed_graham_scan", ch::indexed_graham_scan(&v, idx)),
    ] {
        st.calls += 1;
        match (&good, r) {
            (Some(g), Ok(r)) => {
                let c: Vec<P> = r.iter().filter_map(|i| int2(v[*i])).collect();
                if let Err(e) = super::hull::hull_verdict(g, &c) {
                    st.fail(format!("{name}: {p:?}{idx:?}: {e}"));
                }
            }
            (Some(_), Err(e)) => st.fail(format!("{name}: refused {listed:?} of {p:?}: {e:?}")),
            (None, Ok(r)) => ensure!(
                st,
                different(&listed) < 3,
                "{name}: returned a hull {r:?} of {listed:?}"
            ),
            (None, Err(_)) => {}
        }
    }
}

/// the largest finite numbers are no reason to refuse anything; results are out of the range of the numbers
fn large<T: GenericVector2>(n: &str, q: &[usize], st: &mut Local) {
    let m = f(<T::Scalar as vector_traits::num_traits::Float>::max_value());
    let at = [(0.0, 0.0), (m, 0.0), (0.0, m), (m, m), (-m, 0.0), (0.0, -m), (-m, -m), (m, -m), (-m, m), (m / 2.0, m / 2.0), (1.0, -m / 2.0), (3.0, 5.0)];
    let p: Vec<F> = q.iter().map(|k| at[*k]).collect();
    let v: Vec<T> = vs(&p);
    let idx: Vec<usize> = (0..v.len()).collect();
    let mut say = |name: &str, ok: bool| {
        st.calls += 1;
        ensure!(st, ok, "{n}: {name} refused {p:?}");
    };
    say("gift_wrap", ch::gift_wrap(&v).is_ok());
    say("graham_scan", ch::graham_scan(&v).is_ok());
    say("convex_hull", v.convex_hull().is_ok());
    say("indexed_gift_wrap", ch::indexed_gift_wrap(&v, &idx).is_ok());
    say("indexed_graham_scan", ch::indexed_graham_scan(&v, &idx).is_ok());
    sweeps::<T>(n, &[(p[0], p[1]), (p[2], p[3])], 1, st);
    let mut long = p.clone();
    long.extend(&p);
    long.extend(&p);
    selfx::<T>(n, &long, st);
}

fn hull_par(p: &[F], chunk: usize, cfg: Config, st: &mut Local) {
    let v: Vec<DVec2> = vs(p);
    let idx: Vec<usize> = (0..v.len()).collect();
    explore(
        cfg,
        st,
        || ch::convex_hull_par(&v, &idx, chunk).map_err(|_| ()),
        |st, r, choices| {
            st.calls += 1;
            match r {
                Ok(r) => ensure!(
                    st,
                    r.is_err() || different(p) < 3,
                    "convex_hull_par returned a hull of {p:?}, schedule {:?}",
                    taken(choices)
                ),
                Err(e) => st.fail(format!(
                    "convex_hull_par panicked: {e}, schedule {:?}",
                    taken(choices)
                )),
            }
        },
    );
}

fn sweeps<T: GenericVector2>(n: &str, l: &[(F, F)], split: usize, st: &mut Local) {
    let line = |s: &(F, F)| Line2::<T>::new(v2(s.0 .0, s.0 .1), v2(s.1 .0, s.1 .1));
    let is_bad = l.iter().any(|s| bad(s.0) || bad(s.1));
    for (ignore, first) in [(false, false), (true, false), (true, true), (false, true)] {
        st.calls += 2;
        let r = IntersectionData::<T>::default()
            .with_ignore_end_point_intersections(ignore)
            .and_then(|x| x.with_stop_at_first_intersection(first))
            .and_then(|x| x.with_lines(l[..split].iter().map(line)))
            .and_then(|x| x.with_lines(l[split..].iter().map(line)))
            .and_then(|x| x.compute())
            .map(|r| r.len());
        ensure!(
            st,
            r.is_err() == is_bad,
            "{n}: the sweep over {l:?} gave {r:?}"
        );
        // a vertex without an edge may be anything
        let mut table: Vec<T> = vec![v2(f64::NAN, f64::INFINITY)];
        table.extend(
            l.iter()
                .flat_map(|s| [v2::<T>(s.0 .0, s.0 .1), v2(s.1 .0, s.1 .1)]),
        );
        let e: Vec<(usize, usize)> = (0..l.len()).map(|i| (2 * i + 1, 2 * i + 2)).collect();
        let r = IntersectionTester::<T>::new(table)
            .with_ignore_end_point_intersections(ignore)
            .and_then(|x| x.with_stop_at_first_intersection(first))
            .and_then(|x| x.with_edges(&e[..split]))
            .and_then(|x| x.with_edges(&e[split..]))
            .and_then(|x| x.compute())
            .map(|r| r.1.len());
        ensure!(
            st,
            r.is_err() == is_bad,
            "{n}: the indexed sweep over {l:?} gave {r:?}"
        );
    }
}

fn selfx<T: GenericVector2>(n: &str, p: &[F], st: &mut Local) {
    let v: Vec<T> = vs(p);
    st.calls += 1;
    let r = v.is_self_intersecting();
    if p.len() >= 10 {
        let b = p.iter().any(|p| bad(*p));
        ensure!(
            st,
            r.is_err() == b,
            "{n}: is_self_intersecting of {p:?} gave {r:?}"
        );
    }
}

fn c22(t: Tier) -> Vec<Box<dyn Family>> {
    let mut v: Vec<Box<dyn Family>> = Vec::new();
    let rule = "some coordinate is not finite";
    let some = |p: &[F], st: &mut Local| {
        if p.iter().any(|p| bad(*p)) {
            st.nontrivial += 1;
        }
        let kinds: Vec<u8> = p
            .iter()
            .map(|p| u8::from(!p.0.is_finite()) * 2 + u8::from(!p.1.is_finite()))
            .collect();
        st.state(&kinds);
    };
    let seq = |k: u32| {
        move |i: u64| -> Vec<F> {
            seq_decode(i, LETTERS, 0, k)
                .iter()
                .map(|c| alphabet(*c))
                .collect()
        }
    };
    let k = t.pick(5, 6);
    v.push(fam(format!("every sequence of up to {k} of 5 points and 9 with NaN or infinity: hulls and self-intersection"), rule, seq_count(LETTERS, 0, k), seq(k), move |p: &Vec<F>, st| {
        some(p, st);
        hulls::<DVec2>("DVec2", p, st);
        selfx::<DVec2>("DVec2", p, st);
    }));
    v.push(fam(
        "every sequence of up to 4 of these points, every vector type",
        rule,
        seq_count(LETTERS, 0, 4),
        seq(4),
        move |p: &Vec<F>, st| {
            some(p, st);
            for_2d!(T, n, {
                hulls::<T>(n, p, st);
                selfx::<T>(n, p, st);
            });
        },
    ));
    v.push(fam(
        "every sequence of 4 of these points with every list of up to 4 indices",
        rule,
        ipow(LETTERS, 4) * seq_count(4, 1, 4),
        |i| {
            let n = seq_count(4, 1, 4);
            let idx: Vec<usize> = seq_decode(i % n, 4, 1, 4)
                .iter()
                .map(|x| *x as usize)
                .collect();
            let p: Vec<F> = seq_decode(i / n, LETTERS, 4, 4)
                .iter()
                .map(|c| alphabet(*c))
                .collect();
            (p, idx)
        },
        move |(p, idx): &(Vec<F>, Vec<usize>), st| {
            some(p, st);
            hull_unlisted(p, idx, st);
        },
    ));
    let n = t.pick(12usize, 24);
    v.push(fam(
        format!("{n} points on a circle with every bad point at every position: all hulls, the parallel one under every schedule with 2 workers"),
        rule,
        n as u64 * 9 * 3,
        move |i| {
            let mut p: Vec<F> = lattice_polygon(n).iter().map(|p| (p.0 as f64, p.1 as f64)).collect();
            p[(i / 27) as usize] = alphabet(5 + i / 3 % 9);
            (p, [2usize, 5, 100][(i % 3) as usize])
        },
        move |(p, chunk): &(Vec<F>, usize), st| {
            some(p, st);
            hulls::<DVec2>("DVec2", p, st);
            // few chunks: every schedule; many chunks: without concurrency
            let threads = if *chunk >= n / 3 { 2 } else { 1 };
            hull_par(p, *chunk, Config { threads, injected: false, preemptions: 0, ..CFG }, st);
            selfx::<DVec2>("DVec2", p, st);
        },
    ));
    v.push(fam(
        "every pair of lines between these points: both sweeps",
        rule,
        ipow(LETTERS, 4),
        |i| -> Vec<F> {
            seq_decode(i, LETTERS, 4, 4)
                .iter()
                .map(|c| alphabet(*c))
                .collect()
        },
        move |p: &Vec<F>, st| {
            some(p, st);
            for_2d!(T, n, {
                sweeps::<T>(n, &[(p[0], p[1]), (p[2], p[3])], 1, st);
            });
        },
    ));
    v.push(fam(
        "12 lines with every bad point at every position, in one and in two batches: both sweeps",
        rule,
        24 * 9 * 3,
        |i| {
            let mut l: Vec<(F, F)> = (0..12)
                .map(|k| ((k as f64, 0.0), (12.0 - k as f64, 7.0)))
                .collect();
            let b = alphabet(5 + i % 9);
            let at = (i / 9 % 24) as usize;
            if at % 2 == 0 {
                l[at / 2].0 = b;
            } else {
                l[at / 2].1 = b;
            }
            (l, [0usize, 5, 12][(i / 216) as usize])
        },
        move |(l, split): &(Vec<(F, F)>, usize), st| {
            st.nontrivial += 1;
            sweeps::<DVec2>("DVec2", l, *split, st);
        },
    ));
    let ns: &[usize] = t.pick(&[40, 257], &[40, 257, 1025, 4097]);
    let mut list: Vec<(usize, usize, u64)> = Vec::new();
    for n in ns {
        for at in 0..*n {
            // every position of the shorter ones, and positions next to both ends and powers of two
            if *n < 300 || at < 3 || at + 3 >= *n || (at & (at - 1)) == 0 || (at & (at + 1)) == 0 {
                list.extend((0..9).map(|b| (*n, at, b)));
            }
        }
    }
    v.push(fam_list(
        format!("{ns:?} points with every bad point at every position (of the longest at the ends and next to powers of two): hulls, index based ones with the bad point listed first, last and not at all, self-intersection and both sweeps"),
        rule,
        list,
        move |(n, at, b): &(usize, usize, u64), st| {
            st.nontrivial += 1;
            st.state(&(n, at, b));
            let mut p: Vec<F> = (0..*n).map(|i| ((i * i % 1009) as f64, (i * 31 % 997) as f64)).collect();
            p[*at] = alphabet(5 + b);
            hulls::<DVec2>("DVec2", &p, st);
            selfx::<DVec2>("DVec2", &p, st);
            let good: Vec<usize> = (0..*n).filter(|i| i != at).collect();
            let mut first = vec![*at];
            first.extend(&good);
            let mut last = good.clone();
            last.push(*at);
            for idx in [&good, &first, &last] {
                hull_unlisted(&p, idx, st);
            }
            hull_par(&p, n / 3, CFG, st);
            if *n < 100 {
                let l: Vec<(F, F)> = (0..*n).map(|i| (p[i], (i as f64, -1.0))).collect();
                sweeps::<DVec2>("DVec2", &l, n / 2, st);
            }
        },
    ));
    v.push(fam(
        "every sequence of 4 of 12 points with the largest finite numbers: hulls, both sweeps, self-intersection of 12 points",
        "there is a largest number among the coordinates",
        ipow(12, 4),
        |i| seq_decode(i, 12, 4, 4).iter().map(|c| *c as usize).collect::<Vec<usize>>(),
        move |q: &Vec<usize>, st| {
            st.nontrivial += 1;
            st.state(q);
            for_2d!(T, n, { large::<T>(n, q, st) });
        },
    ));
    v.push(fam_list("70000 points with every bad point at 6 places: hulls, self-intersection and both sweeps", rule, (0..54u64).collect(), move |i: &u64, st| {
        st.nontrivial += 1;
        st.state(i);
        let (at, b) = ([0usize, 32_768, 65_535, 65_536, 65_537, 69_999][(i / 9) as usize], alphabet(5 + i % 9));
        let mut saw: Vec<F> = (0..70_000i64).map(|i| (i as f64, (i % 2) as f64)).collect();
        saw[at] = b;
        selfx::<DVec2>("DVec2", &saw, st);
        let l: Vec<(F, F)> = saw.chunks(2).map(|w| (w[0], w[1])).collect();
        sweeps::<DVec2>("DVec2", &l, [0, 33_000, 35_000][(i % 3) as usize], st);
        let mut p: Vec<F> = (0..70_000i64).map(|i| ((i * i % 1009) as f64, (i * 31 % 997) as f64)).collect();
        p[at] = b;
        let v: Vec<DVec2> = vs(&p);
        let idx: Vec<usize> = (0..v.len()).collect();
        let mut say = |name: &str, ok: bool| {
            st.calls += 1;
            ensure!(st, !ok, "{name} accepted 70000 points of which one is bad");
        };
        say("graham_scan", ch::graham_scan(&v).is_ok());
        say("graham_scan_wo_atan2", ch::graham_scan_wo_atan2(&v).is_ok());
        say("gift_wrap", ch::gift_wrap(&v).is_ok());
        say("convex_hull", v.convex_hull().is_ok());
        say("indexed_gift_wrap", ch::indexed_gift_wrap(&v, &idx).is_ok());
        say("indexed_graham_scan", ch::indexed_graham_scan(&v, &idx).is_ok());
    }));
    v
}
const CFG: Config = Config {
    threads: 1,
    injected: false,
    preemptions: 0,
    horizon: 2000,
};

pub fn props() -> Vec<Prop> {
    vec![
        Prop {
            id: "C22",
            families: |t| with_zeros(c22(t), c22, &["every vector type", "every pair of lines"]),
            bounds: "all sequences of up to 5 (thorough 6) of 5 points and 9 points with NaN or infinity in one or both coordinates, up to 4 for every vector type, with every list of up to 4 indices; every bad point at every position of 12 (24), 40 and 257 (1025, 4097) points and of 12 lines, 6 places of 70000 points and of 35000 lines; all sequences of 4 of 12 points with the largest finite numbers; the parallel hull under every schedule of 2 workers where it splits into up to 3 parts",
            assumptions: &["fewer than three different points are returned as they are by some hull functions"],
        },
        Prop {
            id: "C24",
            families: |t| with_digits(c24(t), c24, &["every vector type"]),
            bounds: "all histories of up to 5 (thorough 6) of 9 builder operations on both searches, up to 3 for every vector type; many lines in batches of 1, 2, 7, 32 and all, options given at different times; 80000 lines in up to 4 batches",
            assumptions: &[],
        },
    ]
}
