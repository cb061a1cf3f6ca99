//! C11 division of edges into shapes.
use crate::ensure;
use crate::fw::*;
use crate::geo::*;
use linestring::prelude::divide_into_shapes;
use std::collections::{BTreeMap, BTreeSet};

type Edge = (usize, usize);
fn undirected(a: usize, b: usize) -> Edge {
    (a.min(b), a.max(b))
}

fn case(ix: &[usize], st: &mut Local) {
    let edges: BTreeSet<Edge> = ix.chunks_exact(2).filter(|c| c[0] != c[1]).map(|c| undirected(c[0], c[1])).collect();
    let mut deg: BTreeMap<usize, usize> = BTreeMap::new();
    for (a, b) in &edges {
        *deg.entry(*a).or_insert(0) += 1;
        *deg.entry(*b).or_insert(0) += 1;
    }
    let inner = |v: usize| deg.get(&v) == Some(&2);
    st.calls += 1;
    if edges.len() > 1 {
        st.nontrivial += 1;
    }
    let (shapes, vob) = divide_into_shapes(ix);
    let mut seen: BTreeSet<Edge> = BTreeSet::new();
    let mut loops = 0;
    for s in &shapes {
        if s.len() < 2 {
            st.fail(format!("shape {s:?} has no edge; all shapes {shapes:?}"));
            return;
        }
        for w in s.windows(2) {
            let e = undirected(w[0], w[1]);
            ensure!(st, edges.contains(&e), "shape {s:?} uses the edge {e:?}, which is not given; all shapes {shapes:?}");
            ensure!(st, seen.insert(e), "the edge {e:?} is used twice; all shapes {shapes:?}");
        }
        for v in &s[1..s.len() - 1] {
            ensure!(st, inner(*v), "shape {s:?} runs through {v}, which does not connect exactly two edges; all shapes {shapes:?}");
        }
        let (a, b) = (s[0], s[s.len() - 1]);
        if a == b {
            loops += 1;
        } else {
            ensure!(st, !inner(a) && !inner(b), "shape {s:?} ends at a vertex where exactly two edges meet; all shapes {shapes:?}");
        }
    }
    for e in &edges {
        ensure!(st, seen.contains(e), "the edge {e:?} is missing; all shapes {shapes:?}");
    }
    let max = ix.chunks_exact(2).flatten().copied().max().unwrap_or(0);
    ensure!(st, vob.len() == max + 1, "{} flags for the vertices 0..={max}", vob.len());
    for v in 0..=max.min(vob.len().saturating_sub(1)) {
        ensure!(st, vob.get(v) == Some(inner(v)), "vertex {v} is flagged {:?}, exactly two edges meet there: {}", vob.get(v), inner(v));
    }
    st.state(&(&edges, &shapes));
    st.tag(match (shapes.is_empty(), loops > 0, loops == shapes.len()) {
        (true, ..) => "no shape",
        (_, _, true) => "only loops",
        (_, true, _) => "loops and open shapes",
        _ => "only open shapes",
    });
}

/// the edges of a labelled graph on n vertices, given by the bits of g
fn graph(g: u64, n: usize) -> Vec<Edge> {
    let mut v = Vec::new();
    let mut k = 0;
    for a in 0..n {
        for b in a + 1..n {
            if g >> k & 1 == 1 {
                v.push((a, b));
            }
            k += 1;
        }
    }
    v
}
/// a few orders, directions and labels of an edge list
fn variant(mut e: Vec<Edge>, k: u64) -> Vec<usize> {
    let m = e.len();
    match k % 4 {
        1 => e.reverse(),
        2 => e = (0..m).map(|i| e[(i * 7 + 3) % m]).collect::<BTreeSet<Edge>>().into_iter().rev().chain(e[..m / 2].iter().copied()).collect(),
        3 => e.rotate_left(m / 2),
        _ => (),
    }
    let top = e.iter().map(|(a, b)| *a.max(b)).max().unwrap_or(0);
    // as they are, with gaps, in the opposite order, mixed up
    let lab = |v: usize| match k / 4 {
        0 => v,
        1 => 3 * v + 2,
        2 => top - v,
        _ => (v * 5003 + 17) % 10007,
    };
    e.iter().enumerate().flat_map(|(i, (a, b))| if (i as u64 + k) % 3 == 1 { [lab(*b), lab(*a)] } else { [lab(*a), lab(*b)] }).collect()
}

/// disjoint or joined paths, loops, stars, ladders
fn structured(ns: &[usize]) -> Vec<(String, Vec<Edge>)> {
    let path = |o: usize, n: usize| -> Vec<Edge> { (0..n).map(|i| (o + i, o + i + 1)).collect() };
    let ring = |o: usize, n: usize| -> Vec<Edge> { (0..n).map(|i| (o + i, o + (i + 1) % n)).collect() };
    let mut v: Vec<(String, Vec<Edge>)> = Vec::new();
    for n in ns.iter().copied() {
        v.push((format!("path of {n}"), path(0, n)));
        v.push((format!("ring of {n}"), ring(0, n)));
        v.push((format!("ring of {n} after a gap"), ring(40, n)));
        v.push((format!("two rings of {n}"), ring(0, n).into_iter().chain(ring(n, n)).collect()));
        v.push((format!("three rings of {n}, gaps between"), ring(1, n).into_iter().chain(ring(2 * n, n)).chain(ring(4 * n, n)).collect()));
        v.push((format!("path and ring of {n}"), path(n, n).into_iter().chain(ring(0, n)).collect()));
        v.push((format!("ring of {n} with a tail"), ring(0, n).into_iter().chain([(0, n), (n, n + 1)]).collect()));
        v.push((format!("ring of {n} with two tails"), ring(0, n).into_iter().chain([(0, n), (n, n + 1), (n / 2, n + 2)]).collect()));
        v.push((format!("figure eight of two rings of {n}"), ring(0, n).into_iter().chain((0..n).map(|i| if i == 0 { (0, n) } else if i == n - 1 { (2 * n - 2, 0) } else { (n + i - 1, n + i) })).collect()));
        v.push((format!("star of {n}"), (1..=n).map(|i| (0, i)).collect()));
        v.push((format!("star of {n} around the last vertex"), (0..n).map(|i| (n, i)).collect()));
        v.push((format!("wheel of {n}"), ring(0, n).into_iter().chain((0..n).map(|i| (n, i))).collect()));
        v.push((format!("ladder of {n}"), path(0, n).into_iter().chain(path(n + 1, n)).chain((0..=n).map(|i| (i, i + n + 1))).collect()));
        v.push((format!("rings of 3 in a chain of {n}"), (0..n).flat_map(|i| [(2 * i, 2 * i + 1), (2 * i + 1, 2 * i + 2), (2 * i, 2 * i + 2)]).collect()));
        v.push((format!("grid of {n} x 4"), (0..n * 4).flat_map(|i| [(i, i + 1), (i, i + 4)].into_iter().filter(move |e| e.1 < n * 4 && (e.1 - e.0 == 4 || e.0 % 4 != 3))).collect()));
        v.push((format!("star of {n} paths of 3"), (0..n).flat_map(|i| [(0, 3 * i + 1), (3 * i + 1, 3 * i + 2), (3 * i + 2, 3 * i + 3)]).collect()));
        v.push((format!("two vertices joined by {n} paths of 2"), (0..n).flat_map(|i| [(0, i + 2), (i + 2, 1)]).collect()));
        v.push((format!("{n} separate edges"), (0..n).map(|i| (2 * i, 2 * i + 1)).collect()));
        v.push((format!("{n} separate rings of 3"), (0..n).flat_map(|i| ring(3 * i, 3)).collect()));
    }
    v
}

fn c11(t: Tier) -> Vec<Box<dyn Family>> {
    let mut v: Vec<Box<dyn Family>> = Vec::new();
    let rule = "two or more different edges";
    let hi = t.pick(11, 13);
    v.push(fam(
        format!("every index list of up to {hi} entries over 4 vertices (edges in every order and direction, repeated, from a vertex to itself, odd lengths)"),
        rule,
        seq_count(4, 0, hi),
        move |i| seq_decode(i, 4, 0, hi).iter().map(|x| *x as usize).collect::<Vec<usize>>(),
        |ix: &Vec<usize>, st| case(ix, st),
    ));
    // every order of few edges: the order of the neighbours decides where the lines start
    let hi = t.pick(6, 7);
    let dirs: Vec<Edge> = (0..5).flat_map(|a| (a + 1..5).map(move |b| (a, b))).collect();
    v.push(fam(
        format!("every sequence of up to {hi} edges over 5 vertices, directions alternating in 4 patterns"),
        rule,
        seq_count(10, 0, hi) * 4,
        move |i| {
            seq_decode(i / 4, 10, 0, hi)
                .iter()
                .enumerate()
                .flat_map(|(k, x)| {
                    let (a, b) = dirs[*x as usize];
                    if i >> (k % 2) & 1 == 1 {
                        [b, a]
                    } else {
                        [a, b]
                    }
                })
                .collect::<Vec<usize>>()
        },
        |ix: &Vec<usize>, st| case(ix, st),
    ));
    let n = t.pick(7, 7);
    v.push(fam(
        format!("every graph on {n} labelled vertices, in 4 orders and 2 labellings"),
        rule,
        (1u64 << (n * (n - 1) / 2)) * 8,
        move |i| variant(graph(i / 8, n), i % 8),
        |ix: &Vec<usize>, st| case(ix, st),
    ));
    // up to 8 edges on 8 vertices, as a set
    let n = t.pick(8u64, 9);
    let e8: Vec<Edge> = (0..8).flat_map(|a| (a + 1..8).map(move |b| (a, b))).collect();
    v.push(fam(
        format!("every set of {n} edges on 8 vertices"),
        rule,
        binom(28, n) * 2,
        move |i| variant(subset(i / 2, 28, n).iter().map(|k| e8[*k as usize]).collect(), i % 2 * 3),
        |ix: &Vec<usize>, st| case(ix, st),
    ));
    let ns = t.pick(vec![3usize, 4, 7, 20, 31, 32, 33, 60, 63, 64, 65, 127, 128, 129, 256, 500], vec![3usize, 4, 5, 6, 7, 8, 9, 15, 16, 17, 20, 31, 32, 33, 60, 63, 64, 65, 127, 128, 129, 255, 256, 257, 500, 1000, 1024, 1025, 2000]);
    v.push(fam_list("structured graphs with many vertices, in 4 orders and 4 labellings, doubled, 3 orders of the hash tables", rule, structured(&ns), |(_, e): &(String, Vec<Edge>), st| {
        for k in 0..16 {
            let ix = variant(e.clone(), k);
            let mut twice = ix.clone();
            twice.extend(ix.iter().rev());
            for seed in 0..3 {
                ahash::mc_set_seed(seed);
                case(&ix, st);
                case(&twice, st);
            }
            ahash::mc_set_seed(0);
        }
    }));
    let long: Vec<(String, Vec<Edge>)> = structured(&[t.pick(70_000, 200_000)]);
    v.push(fam_list("structured graphs of more than 65536 vertices, in 3 orders and labellings, on a thread with the usual stack", rule, long, |(_, e): &(String, Vec<Edge>), st| {
        for k in [1, 4, 10] {
            let ix = variant(e.clone(), k);
            small_stack(|| case(&ix, st));
            tick();
        }
    }));
    v
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C11",
        families: c11,
        bounds: "all index lists up to 11 (thorough 13) entries over 4 vertices, all edge sequences up to 6 (7) edges over 5 vertices, all labelled graphs on 7 vertices, all sets of 8 (9) edges on 8 vertices, structured graphs up to some 2000 (10000) edges under several orders, labellings and hash seeds, all of these structures with 70000 (200000) in place on a thread with the default stack",
        assumptions: &["edges from a vertex to itself are not part of any shape"],
    }]
}
